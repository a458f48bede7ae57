# Sourced by demo.sh (cwd /repo): builds what a demonstration needs in a scratch directory.
set -u
REPO=$(pwd)
LLVM=/usr/lib/llvm-20
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
CXX=${DEMO_CXX:-clang++-18}
FL="-std=c++17 -fno-rtti -fPIC -O0 -g0 -w -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
INC="-I$W/overlay -I$REPO/oclint-core/include -I$REPO/oclint-metrics/include -I$REPO/oclint-rules/include -I$REPO/oclint-rules -I$REPO/oclint-driver/include -I$REPO/oclint-driver -isystem $LLVM/include"
LIBS="$LLVM/lib/libclang-cpp.so.20.1 $LLVM/lib/libLLVM.so.20.1 -Wl,-rpath,$LLVM/lib -ldl -lpthread"

overlay() {   # the few LLVM 21 signatures the driver uses, on top of the LLVM 20 headers
    mkdir -p "$W/overlay/clang/Basic"
    python3 - "$LLVM/include/clang/Basic" "$W/overlay/clang/Basic" <<'PY'
import sys
src, dst = sys.argv[1:]
t = open(src + "/TargetInfo.h").read()
t = t.replace("  virtual ~TargetInfo();\n", """  static TargetInfo *CreateTargetInfo(DiagnosticsEngine &Diags, const TargetOptions &Opts) {
    return CreateTargetInfo(Diags, std::make_shared<TargetOptions>(Opts)); }
  virtual ~TargetInfo();
""").replace("  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);\n",
"""  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);
  void adjust(DiagnosticsEngine &Diags, LangOptions &Opts, const TargetInfo *) { adjust(Diags, Opts); }
""")
open(dst + "/TargetInfo.h", "w").write(t)
u = open(src + "/Diagnostic.h").read()
u = u.replace("  DiagnosticsEngine(const DiagnosticsEngine &) = delete;\n",
"""  explicit DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> Diags, DiagnosticOptions &Opts,
      DiagnosticConsumer *client = nullptr, bool ShouldOwnClient = true)
      : DiagnosticsEngine(Diags, IntrusiveRefCntPtr<DiagnosticOptions>(new DiagnosticOptions(Opts)), client, ShouldOwnClient) {}
  DiagnosticsEngine(const DiagnosticsEngine &) = delete;
""")
open(dst + "/Diagnostic.h", "w").write(u)
PY
}

cc_all() {   # cc_all OUTDIR SOURCES...
    local d=$1; shift
    mkdir -p "$d"
    printf '%s\n' "$@" | xargs -P 8 -I{} sh -c "$CXX $FL $INC -c '{}' -o '$d'/\$(basename '{}' .cpp).o" || return 1
}

# oclint_tree "RULE RULE ..." "REPORTER ..."  ->  $OCLINT
oclint_tree() {
    overlay
    mkdir -p "$W/inst/bin" "$W/inst/lib/oclint/rules" "$W/inst/lib/oclint/reporters" "$W/inst/etc"
    ln -s $LLVM/lib/clang "$W/inst/lib/clang"
    local r rs="" ps=""
    for r in $1; do rs="$rs $(find "$REPO/oclint-rules/rules" -name "${r}Rule.cpp")"; done
    for r in $2; do ps="$ps $REPO/oclint-reporters/reporters/${r}Reporter.cpp"; done
    cc_all "$W/drv" "$REPO"/oclint-core/lib/*.cpp "$REPO"/oclint-driver/lib/*.cpp "$REPO"/oclint-driver/main.cpp "$REPO"/oclint-driver/{rules,reporters}_dlfcn_port.cpp || exit 90
    cc_all "$W/lib" "$REPO"/oclint-metrics/lib/*.cpp "$REPO"/oclint-rules/lib/*.cpp "$REPO"/oclint-rules/lib/helper/*.cpp "$REPO"/oclint-rules/lib/util/*.cpp || exit 90
    cc_all "$W/rul" $rs || exit 90
    [ -z "$ps" ] || cc_all "$W/rep" $ps || exit 90
    $CXX -fuse-ld=lld -rdynamic "$W"/drv/*.o -o "$W/inst/bin/oclint" $LIBS || exit 90
    for r in $1; do $CXX -fuse-ld=lld -shared "$W/rul/${r}Rule.o" "$W"/lib/*.o -o "$W/inst/lib/oclint/rules/lib${r}Rule.so" || exit 90; done
    for r in $2; do $CXX -fuse-ld=lld -shared "$W/rep/${r}Reporter.o" -o "$W/inst/lib/oclint/reporters/lib${r}Reporter.so" || exit 90; done
    OCLINT="$W/inst/bin/oclint"
    export HOME="$W/home"; mkdir -p "$HOME" "$W/w"; cd "$W/w"
}
