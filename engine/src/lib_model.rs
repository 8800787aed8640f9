//! Which functions are executed from their IR and which are modelled.
use crate::exec::{K_DEF};

macro_rules! builtins { ($($v:ident = $($s:literal)|+ ;)*) => {
    #[derive(Clone, Copy, Debug, PartialEq)] #[repr(u32)] pub enum B { Undef0, Undef1, $($v),*, Extern, PanicFmt, PanicHook, Alloc, AllocZ, Dealloc, Realloc }
    fn exact(n: &str) -> Option<B> { match n { $($($s)|+ => Some(B::$v),)* _ => None } }
} }
builtins! {
    Nop = "llvm.lifetime.start" | "llvm.lifetime.end" | "llvm.assume" | "llvm.experimental.noalias.scope.decl" | "llvm.dbg.value" | "llvm.dbg.declare" | "llvm.invariant.start" | "llvm.invariant.end" | "llvm.prefetch" | "llvm.donothing" | "llvm.sideeffect" | "llvm.x86.sse2.pause" | "llvm.pseudoprobe" | "llvm.fake.use";
    Ident = "llvm.expect" | "llvm.ssa.copy" | "llvm.launder.invariant.group" | "llvm.strip.invariant.group" | "llvm.threadlocal.address" | "llvm.expect.with.probability";
    Memcpy = "llvm.memcpy" | "llvm.memmove" | "llvm.memcpy.inline" | "memcpy" | "memmove" | "__memcpy_chk";
    Memset = "llvm.memset" | "llvm.memset.inline" | "memset";
    UMax = "llvm.umax"; UMin = "llvm.umin"; SMax = "llvm.smax"; SMin = "llvm.smin"; Abs = "llvm.abs";
    UAddO = "llvm.uadd.with.overflow"; USubO = "llvm.usub.with.overflow"; UMulO = "llvm.umul.with.overflow";
    SAddO = "llvm.sadd.with.overflow"; SSubO = "llvm.ssub.with.overflow"; SMulO = "llvm.smul.with.overflow";
    UAddSat = "llvm.uadd.sat"; USubSat = "llvm.usub.sat"; SAddSat = "llvm.sadd.sat"; SSubSat = "llvm.ssub.sat";
    Ctlz = "llvm.ctlz"; Cttz = "llvm.cttz"; Ctpop = "llvm.ctpop"; Bswap = "llvm.bswap"; Bitrev = "llvm.bitreverse"; Fshl = "llvm.fshl"; Fshr = "llvm.fshr";
    UCmp = "llvm.ucmp"; SCmp = "llvm.scmp"; IsConst = "llvm.is.constant"; ObjSize = "llvm.objectsize"; Trap = "llvm.trap" | "llvm.ubsantrap" | "abort"; PtrMask = "llvm.ptrmask";
    RAdd = "llvm.vector.reduce.add"; ROr = "llvm.vector.reduce.or"; RAnd = "llvm.vector.reduce.and"; RXor = "llvm.vector.reduce.xor"; RUMax = "llvm.vector.reduce.umax"; RUMin = "llvm.vector.reduce.umin"; RMul = "llvm.vector.reduce.mul";
    LoadRel = "llvm.load.relative"; FAbs = "llvm.fabs"; FSqrt = "llvm.sqrt"; FFloor = "llvm.floor"; FCeil = "llvm.ceil"; FTrunc = "llvm.trunc"; FRint = "llvm.rint" | "llvm.nearbyint" | "llvm.roundeven"; FRound = "llvm.round"; CopySign = "llvm.copysign"; FpToSiSat = "llvm.fptosi.sat"; FpToUiSat = "llvm.fptoui.sat";
    Fma = "llvm.fma" | "llvm.fmuladd";
    Bcmp = "bcmp"; Memcmp = "memcmp"; Strlen = "strlen"; Memchr = "memchr"; Memrchr = "memrchr";
    Malloc = "malloc"; Calloc = "calloc"; ReallocC = "realloc"; Free = "free"; PMemalign = "posix_memalign"; AAlloc = "aligned_alloc" | "memalign";
    Write = "write"; WriteV = "writev"; Zero = "getenv" | "getauxval" | "sched_yield" | "pthread_attr_destroy" | "signal" | "sigaction" | "sigaltstack" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_atexit" | "poll" | "fflush" | "close"; One = "getpid" | "gettid" | "pthread_self"; Page = "sysconf"; Errno = "__errno_location"; Exit = "exit" | "_exit"; Syscall = "syscall" | "getrandom";
    SymBits = "sym_bits"; SymBytes = "sym_bytes"; SymChoice = "sym_choice"; SymAssume = "sym_assume"; SymAssert = "sym_assert"; SymReach = "sym_reach"; SymTrace = "sym_trace"; SymConc = "sym_concretize"; SymParam = "sym_param"; SymMaybe = "sym_maybe";
    SymSpawn = "sym_spawn"; SymYield = "sym_yield"; SymWait = "sym_wait"; SymWake = "sym_wake"; SymTimedOut = "sym_timed_out"; SymNow = "sym_now"; SymSched = "sym_sched"; SymTid = "sym_tid"; SymDone = "sym_done"; SymFail = "sym_fail"; SymEnd = "sym_end"; SymSteps = "sym_steps";
    SymDebug = "sym_debug"; SymAdvance = "sym_advance";
}

pub fn of(k: u32) -> B { assert!(k >= 2); unsafe { std::mem::transmute(k) } }

fn llvm_base(n: &str) -> String {
    let mut out = vec![];
    for p in n.split('.') {
        let b = p.as_bytes();
        let ty = !b.is_empty() && match b[0] { b'i' | b'f' | b'p' => b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit()), b'v' | b'n' => b.len() > 2 && b[1].is_ascii_digit(), b's' => p.starts_with("sl_"), _ => false };
        if ty { break; }
        out.push(p);
    }
    out.join(".")
}

pub fn classify(name: &str, has_body: bool) -> u32 {
    if name.starts_with("llvm.") { return exact(&llvm_base(name)).map(|b| b as u32).unwrap_or(B::Extern as u32); }
    if name.starts_with("sym_") { if let Some(b) = exact(name) { return b as u32; } }
    if name.contains("9panicking9panic_fmt") || name.contains("rust_begin_unwind") || name.contains("9panicking18panic_nounwind_fmt") || name.contains("9panicking19panic_cannot_unwind") { return B::PanicFmt as u32; }
    if name.contains("rust_panic_with_hook") || name.contains("10rust_panic") && has_body { return B::PanicHook as u32; }
    if name.contains("___rustc") || name.starts_with("__rust") || name.starts_with("__rdl") {
        if name.ends_with("rust_alloc_zeroed") || name.ends_with("rdl_alloc_zeroed") { return B::AllocZ as u32; }
        if name.ends_with("rust_dealloc") || name.ends_with("rdl_dealloc") { return B::Dealloc as u32; }
        if name.ends_with("rust_realloc") || name.ends_with("rdl_realloc") { return B::Realloc as u32; }
        if name.ends_with("rust_alloc") || name.ends_with("rdl_alloc") { return B::Alloc as u32; }
        if name.contains("no_alloc_shim") { return B::Nop as u32; }
    }
    if has_body { return match name { "memcpy" | "memmove" | "memset" | "bcmp" | "memcmp" | "strlen" => exact(name).unwrap() as u32, _ => K_DEF }; }
    exact(name).map(|b| b as u32).unwrap_or(B::Extern as u32)
}
