#!/bin/bash
# usage: build.sh OUTDIR [variant]    builds the driver from /repo's working tree against the model MPI runtime
set -e
V=$(cd "$(dirname "$0")" && pwd); REPO=${REPO:-/repo}; OUT=$1; VAR=${2:-ompi4}
mkdir -p "$OUT"
case $VAR in ompi4) D="-DMOCK_OPEN_MPI=4";; ompi5) D="-DMOCK_OPEN_MPI=5";; mpich) D="";; noweak) D="-DVT_NOWEAK -DMOCK_OPEN_MPI=4";; nobelts) D="-DNO_SEATBELTS -DMOCK_OPEN_MPI=4";; esac
SRCS=$(python3 - "$REPO" <<'P'
import re,sys,glob,os
r=sys.argv[1]; s=open(r+'/Makefile.am').read().replace('\\\n',' ')
m=re.search(r'^libarmci_la_SOURCES\s*\+?=(.*)$',s,re.M); l=[]
for m in re.finditer(r'^libarmci_la_SOURCES\s*\+?=(.*)$',s,re.M): l+=[w for w in m.group(1).split() if w.endswith('.c')]
l=[r+'/'+w for w in l if os.path.exists(r+'/'+w)]
if not l: l=[w for w in glob.glob(r+'/src/*.c') if not w.endswith('mutex_hdl_spin.c')]
print(' '.join(l))
P
)
W=""; for f in malloc free calloc realloc posix_memalign aligned_alloc memalign valloc strdup pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_init pthread_mutex_destroy pthread_create pthread_join pthread_detach pthread_exit usleep nanosleep sched_yield sleep exit abort __assert_fail; do W="$W -Wl,--wrap=$f"; done
CF="-O1 -g -w -fno-builtin-malloc -fno-builtin-calloc -fno-strict-aliasing $D -DHAVE_CONFIG_H -I$V/mpi -I$REPO/src -I$V/driver"
cd "$OUT"; rm -f *.o
printf '%s\n' "$V/mpi/mockmpi.c" "$V/driver/driver.c" "$V/driver/runner.c" | xargs -P 3 -I{} gcc $CF -c {} &
# memory accesses of the library call the model runtime
mkdir -p lib; rm -f lib/*.o; cd lib
# (sprintf into an object of known size is checked, too)
printf '%s\n' $SRCS | xargs -P 8 -I{} gcc $CF -D_FORTIFY_SOURCE=2 -D_BITS_STRING_FORTIFIED_H=1 -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -c {}
for o in *.o; do objcopy --redefine-sym memcpy=mock_memcpy --redefine-sym memmove=mock_memmove $o; done
cd ..; wait
# the conflict tree's interface is internal to the library
gcc $CF -c "$V/driver/ctree.c" 2>/dev/null || gcc $CF -DNO_WALK -c "$V/driver/ctree.c" 2>/dev/null || gcc $CF -DNO_CTREE -c "$V/driver/ctree.c"
gcc -o run *.o lib/*.o $W -lm -lpthread
