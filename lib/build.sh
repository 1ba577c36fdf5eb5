#!/bin/bash
# Builds the R package from /repo's working tree into $VERIF_BUILD/lib (default
# /verif/build/lib), incrementally: sources are mirrored by content, so that make
# compiles just the files that changed.   build.sh asan: also a sanitized copy in $VERIF_BUILD/asan
set -euo pipefail
export LANG=C.UTF-8 LC_ALL=C.UTF-8 HOME=${HOME:-/root}
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/build}
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9

cat > "$B/Makevars.user" <<'M'
# header dependencies, which R's own rules do not track
CPPFLAGS += -MMD -MP
CXXFLAGS += -w
CXX11FLAGS += -w
CXX14FLAGS += -w
CXX17FLAGS += -w
$(OBJECTS): Makevars
-include $(wildcard *.d)
M
export R_MAKEVARS_USER=$B/Makevars.user MAKEFLAGS=-j8 R_LIBS= R_LIBS_USER=NULL R_ENVIRON_USER= R_PROFILE_USER= _R_SHLIB_STRIP_=false

mirror() { # mirror DEST
  mkdir -p "$1"
  rsync -rlc --no-times --delete --exclude=/.git --exclude=/_build --exclude='*.o' --exclude='*.so' \
    --exclude='/src/*.d' --exclude=Rplots.pdf "$REPO/" "$1/"
  for d in "$1"/src/*.d; do
    [ -e "$d" ] || continue
    if [ ! -e "${d%.d}.cpp" ]; then rm -f "$d" "${d%.d}.o" "$1"/src/glmmsr.so; fi
  done
}

S=$B/glmmsr
mirror "$S"
# nothing to do when neither the sources nor the installation changed
H=$(cd "$S" && find . -type f ! -name '*.o' ! -name '*.so' ! -name '*.d' ! -path './tests/*' -print0 | LC_ALL=C sort -z | xargs -0 sha1sum | sha1sum | cut -d' ' -f1)
if [ "$(cat "$B/installed" 2>/dev/null)" != "$H" ] || [ ! -e "$B/lib/glmmsr/libs/glmmsr.so" ]; then
  rm -f "$B/installed"
  rm -rf "$B/lib"
  mkdir -p "$B/lib"
  R CMD INSTALL --no-docs --no-test-load --library="$B/lib" "$S" > "$B/install.log" 2>&1 || { tail -40 "$B/install.log" >&2; exit 3; }
  [ -e "$B/lib/glmmsr/libs/glmmsr.so" ] || { tail -40 "$B/install.log" >&2; exit 3; }
  echo "$H" > "$B/installed"
fi
[ "${1:-}" = asan ] || exit 0

# the same package with its compiled code under address and undefined-behaviour
# sanitizers, library assertions on, and variables poisoned before their first use
A=$B/asan
mkdir -p "$A/obj"
cat > "$A/Makefile.new" <<'M'
RINC := $(shell R RHOME)/../../share/R/include
SRC := $(wildcard $(S)/src/*.cpp)
OBJ := $(patsubst $(S)/src/%.cpp,obj/%.o,$(SRC))
INC := $(shell R CMD config --cppflags) $(shell Rscript --vanilla -e 'for (p in c("Rcpp","RcppEigen","RcppR6","BH")) { d <- system.file("include", package = p); if (nzchar(d)) cat(" -isystem ", d, sep = "") }')
FLAGS := -std=gnu++11 -O1 -g1 -fPIC -w -MMD -MP -UNDEBUG -D_GLIBCXX_ASSERTIONS -DEIGEN_INITIALIZE_MATRICES_BY_NAN \
 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=undefined -fno-sanitize=vptr -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern
glmmsr.so: $(OBJ)
	g++ -shared -fsanitize=address,undefined -o $@.tmp $(OBJ) $(shell R CMD config --ldflags) && mv $@.tmp $@
obj/%.o: $(S)/src/%.cpp Makefile
	g++ $(FLAGS) $(INC) -I$(S)/inst/include -I$(S)/src -c $< -o $@
-include $(OBJ:.o=.d)
M
cmp -s "$A/Makefile.new" "$A/Makefile" || cp "$A/Makefile.new" "$A/Makefile"
for d in "$A"/obj/*.d; do [ -e "$d" ] && [ ! -e "$S/src/$(basename "${d%.d}").cpp" ] && rm -f "$d" "${d%.d}.o" "$A/glmmsr.so"; done
make -C "$A" S="$S" glmmsr.so > "$A/build.log" 2>&1 || { tail -40 "$A/build.log" >&2; exit 3; }
if [ "$(cat "$A/installed" 2>/dev/null)" != "$H $(sha1sum < "$A/glmmsr.so")" ]; then
  rm -f "$A/installed"; rm -rf "$A/lib"; mkdir -p "$A/lib"
  cp -a "$B/lib/glmmsr" "$A/lib/"; cp "$A/glmmsr.so" "$A/lib/glmmsr/libs/glmmsr.so"
  echo "$H $(sha1sum < "$A/glmmsr.so")" > "$A/installed"
fi
