# build.sh REPO DIR SRCDIR "FLAGS" "CC" : the extension with shim and the reference library
set -e; REPO=$1; D=$2; H=$3; FL=$4; CC=${5:-gcc}
INC="-I$REPO/include $(/usr/bin/python3 -c 'import sysconfig,numpy;print("-I"+sysconfig.get_paths()["include"],"-I"+numpy.get_include())')"
mkdir -p $D/p $D/r; n=0
for s in $REPO/src/*.c $REPO/python/pyqpSWIFT.c; do $CC $FL -fPIC -w -fno-builtin-printf -finstrument-functions $INC -c $s -o $D/p/$(basename $s).o & done
for s in $REPO/src/*.c $H/ref.c; do $CC $FL -fPIC -w $INC -c $s -o $D/r/$(basename $s).o & done
$CC $FL -fPIC -w $INC -c $H/shim.c -o $D/p/shim.o &
for j in $(jobs -p); do wait $j; done
W=-Wl,-Bsymbolic,--wrap=PyEval_SaveThread,--wrap=PyEval_RestoreThread,--wrap=clock_gettime,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
$CC $FL -shared $W $D/p/*.o -o $D/qpSWIFT.so -lm
$CC $FL -shared -Wl,-Bsymbolic,--wrap=clock_gettime $D/r/*.o -o $D/libref.so -lm
