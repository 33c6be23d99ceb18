# build.sh REPO DIR VERIF MODE(mex|cg) : gateways and library against the API models, and the reference library
set -e; REPO=$1; D=$2; V=$3; MODE=$4; H=$V/src/mex
FL="-O1 -g -DNDEBUG -fsanitize=address -fno-omit-frame-pointer -w"; INC="-I$REPO/include -I$H"; DEF=""; [ $MODE = mex ] && DEF="-DMATLAB_MEX_FILE"
mkdir -p $D/l $D/r $D/v
for s in $REPO/src/*.c; do gcc $FL $DEF $INC -c $s -o $D/l/$(basename $s).o & gcc $FL -fPIC -I$REPO/include -c $s -o $D/r/$(basename $s).o & done
gcc $FL -fPIC -I$REPO/include -c $H/ref.c -o $D/r/ref.o &
if [ $MODE = mex ]; then gcc $FL $DEF $INC -c $REPO/matlab/qpSWIFT_mex.c -o $D/l/gateway.o & fi
for b in qpSWIFT_sfunc qpSWIFT_sfunc_e; do for nv in 3 1 2 5; do
  s=$REPO/simulink/$b.c; if [ $nv != 3 ]; then sed -E "s/^([ \t]*#[ \t]*define[ \t]+NV[ \t]+)[0-9]+/\1$nv/" $s >$D/v/$b.$nv.c; s=$D/v/$b.$nv.c; fi  # README: edit NV for another number of outputs
  gcc $FL $DEF $INC -I$REPO/simulink -DSFVAR=$nv -c $s -o $D/l/$b.$nv.o &
done; done
g++ -O1 -g -std=c++17 -fsanitize=address -w $( [ $MODE = mex ] && echo -DMEXMODE ) -I$V/src $INC -c $V/src/c_mex.cpp -o $D/harness.o &
for j in $(jobs -p); do wait $j; done
W=-Wl,--wrap=clock_gettime,--wrap=QP_SOLVE; [ $MODE = cg ] && W=$W,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
g++ -fsanitize=address $W $D/harness.o $D/l/*.o -o $D/harness -lm -ldl
gcc -fsanitize=address -shared -Wl,-Bsymbolic,--wrap=clock_gettime $D/r/*.o -o $D/libref.so -lm
