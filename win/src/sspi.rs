//! A scripted SSPI: every call is checked against the state of its handles and answered as planned.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_void, CStr};
use std::slice;

type Handle = (usize, usize);

#[repr(C)]
pub struct SecHandle {
    lower: usize,
    upper: usize,
}

#[repr(C)]
pub struct SecBuffer {
    size: u32,
    kind: u32,
    data: *mut c_void,
}

#[repr(C)]
pub struct SecBufferDesc {
    version: u32,
    count: u32,
    buffers: *mut SecBuffer,
}

const TOKEN: u32 = 2;
const OUTBOUND: u32 = 2;
const TOO_SMALL: i32 = 0x8009_0321u32 as i32;
const INVALID_HANDLE: i32 = 0x8009_0301u32 as i32;
const INVALID_TOKEN: i32 = 0x8009_0308u32 as i32;

/// How the calls of one operation end
#[derive(Clone, Default)]
pub struct Plan {
    pub acquire: i32,
    pub init: i32,
    pub token: Vec<u8>,
    pub left: Option<u32>,
    pub complete: i32,
    /// what releasing answers, after having released
    pub release: i32,
    pub flip: Option<u8>,
    pub handle: Handle,
    pub attributes: u32,
    pub expiry: i64,
}

#[derive(Default)]
pub struct Sspi {
    plan: Plan,
    owner: u64,
    target: Vec<u8>,
    message: Option<Option<Vec<u8>>>,
    /// live handle: owner
    credentials: BTreeMap<Handle, u64>,
    /// live handle: owner and credentials
    contexts: BTreeMap<Handle, (u64, Handle)>,
    targets: BTreeMap<u64, Vec<u8>>,
    serial: usize,
    /// context and output buffer of a token that waits for completion
    pending: Option<(Handle, usize, usize)>,
    pub problem: Option<String>,
    pub acquired: Option<i32>,
    pub outcome: Option<Result<Vec<u8>, i32>>,
    pub counts: BTreeMap<String, u64>,
}

thread_local! {
    static SSPI: RefCell<Sspi> = RefCell::default();
}

pub fn with<T>(f: impl FnOnce(&mut Sspi) -> T) -> T {
    SSPI.with(|s| f(&mut s.borrow_mut()))
}

pub fn reset() {
    with(|s| *s = Sspi::default());
}

impl Sspi {
    pub fn begin(&mut self, owner: u64, plan: Plan, target: Vec<u8>, message: Option<Option<Vec<u8>>>) {
        self.owner = owner;
        self.plan = plan;
        self.target = target;
        self.message = message;
        self.acquired = None;
        self.outcome = None;
        self.pending = None;
    }
    pub fn live(&self) -> (usize, usize) {
        (self.credentials.len(), self.contexts.len())
    }
    pub fn live_of(&self, owner: u64) -> (usize, usize) {
        (
            self.credentials.values().filter(|o| **o == owner).count(),
            self.contexts.values().filter(|o| o.0 == owner).count(),
        )
    }
    pub fn incomplete(&self) -> bool {
        self.pending.is_some()
    }
    fn wrong(&mut self, what: impl Into<String>) {
        let what = what.into();
        self.problem.get_or_insert(what);
    }
    fn count(&mut self, what: &str) {
        *self.counts.entry(what.to_owned()).or_insert(0) += 1;
    }
    fn new_handle(&mut self) -> Handle {
        // never the same twice
        self.serial += 1;
        (self.plan.handle.0, self.plan.handle.1 << 16 | self.serial)
    }
}

unsafe fn handle(h: *const SecHandle) -> Option<Handle> {
    h.as_ref().map(|h| (h.lower, h.upper))
}

#[no_mangle]
pub unsafe extern "system" fn AcquireCredentialsHandleA(
    _principal: *const u8,
    package: *const u8,
    usage: u32,
    _logon: *const c_void,
    _auth: *const c_void,
    _get_key: *mut c_void,
    _get_key_argument: *const c_void,
    credential: *mut SecHandle,
    expiry: *mut i64,
) -> i32 {
    with(|s| {
        s.count("AcquireCredentialsHandle");
        if package.is_null() || !matches!(CStr::from_ptr(package.cast()).to_bytes(), b"Negotiate" | b"NTLM") {
            s.wrong("credentials for an unknown package");
        }
        if usage & OUTBOUND == 0 {
            s.wrong("credentials not for outbound use");
        }
        if credential.is_null() {
            s.wrong("no place for the credentials handle");
            return INVALID_HANDLE;
        }
        s.acquired = Some(s.plan.acquire);
        if s.plan.acquire < 0 {
            s.count("AcquireCredentialsHandle fails");
            return s.plan.acquire;
        }
        let h = s.new_handle();
        s.credentials.insert(h, s.owner);
        let (owner, target) = (s.owner, s.target.clone());
        s.targets.insert(owner, target);
        credential.write(SecHandle { lower: h.0, upper: h.1 });
        if !expiry.is_null() {
            expiry.write(s.plan.expiry);
        }
        s.plan.acquire
    })
}

#[no_mangle]
pub unsafe extern "system" fn InitializeSecurityContextA(
    credential: *const SecHandle,
    context: *const SecHandle,
    target: *const c_char,
    _request: u32,
    reserved1: u32,
    _representation: u32,
    input: *const SecBufferDesc,
    reserved2: u32,
    new_context: *mut SecHandle,
    output: *mut SecBufferDesc,
    attributes: *mut u32,
    expiry: *mut i64,
) -> i32 {
    with(|s| {
        s.count("InitializeSecurityContext");
        let fail = |s: &mut Sspi, code: i32| {
            s.outcome = Some(Err(code));
            code
        };
        let cred = match handle(credential) {
            Some(c) if s.credentials.get(&c) == Some(&s.owner) => c,
            c => {
                s.wrong(format!("InitializeSecurityContext with credentials {c:x?} which are not this client's live ones"));
                return fail(s, INVALID_HANDLE);
            }
        };
        let old = handle(context);
        if let Some(c) = old {
            if s.contexts.get(&c) != Some(&(s.owner, cred)) {
                s.wrong(format!("InitializeSecurityContext with context {c:x?} which is not this client's live one"));
                return fail(s, INVALID_HANDLE);
            }
        }
        let want = s.targets.get(&s.owner).cloned().unwrap_or_default();
        if target.is_null() || CStr::from_ptr(target).to_bytes() != &want[..] {
            s.wrong("InitializeSecurityContext for another target");
        }
        if reserved1 != 0 || reserved2 != 0 {
            s.wrong("a reserved argument is not zero");
        }
        // the token of the peer
        let mut token = None;
        if let Some(desc) = input.as_ref() {
            if desc.version != 0 {
                s.wrong("input descriptor with an unknown version");
            }
            for i in 0..desc.count as usize {
                let b = &*desc.buffers.add(i);
                if b.kind == TOKEN && token.is_none() {
                    token = Some(if b.size == 0 { Vec::new() } else { slice::from_raw_parts(b.data as *const u8, b.size as usize).to_vec() });
                } else if b.kind != 0 {
                    s.wrong("an input buffer which is not a token");
                }
            }
        }
        match s.message.clone() {
            None => s.wrong("InitializeSecurityContext was not expected"),
            Some(m) => {
                // a peer's token of no bytes is a token all the same
                if m.clone().unwrap_or_default() != token.clone().unwrap_or_default() || m.is_some() && token.is_none() {
                    s.wrong(format!(
                        "SSPI got the token {}, the peer sent {}",
                        token.map_or("none".to_owned(), |t| crate::util::hexs(&t)),
                        m.map_or("none".to_owned(), |t| crate::util::hexs(&t)),
                    ));
                }
            }
        }
        // where the answer goes
        let out = match output.as_mut() {
            Some(d) if d.version == 0 && d.count == 1 && !d.buffers.is_null() => &mut *d.buffers,
            _ => {
                s.wrong("no output buffer");
                return fail(s, INVALID_TOKEN);
            }
        };
        if out.kind != TOKEN || (out.data.is_null() && out.size != 0) {
            s.wrong("the output buffer is not one for a token");
            return fail(s, INVALID_TOKEN);
        }
        s.pending = None;
        let mut code = s.plan.init;
        if code >= 0 && s.plan.token.len() > out.size as usize {
            code = TOO_SMALL;
            s.count("output buffer too small");
        }
        if code < 0 {
            s.count(if old.is_some() { "InitializeSecurityContext fails (context stays)" } else { "InitializeSecurityContext fails (no context)" });
            if let Some(left) = s.plan.left {
                out.size = left.min(out.size);
            }
            return fail(s, code);
        }
        let h = old.unwrap_or_else(|| {
            let h = s.new_handle();
            s.contexts.insert(h, (s.owner, cred));
            h
        });
        match new_context.as_mut() {
            Some(n) => {
                n.lower = h.0;
                n.upper = h.1;
            }
            None if old.is_none() => {
                s.wrong("no place for the context handle");
                return fail(s, INVALID_HANDLE);
            }
            None => (),
        }
        slice::from_raw_parts_mut(out.data as *mut std::mem::MaybeUninit<u8>, s.plan.token.len())
            .iter_mut()
            .zip(&s.plan.token)
            .for_each(|(d, b)| {
                d.write(*b);
            });
        out.size = s.plan.token.len() as u32;
        if let Some(a) = attributes.as_mut() {
            *a = s.plan.attributes;
        }
        if let Some(e) = expiry.as_mut() {
            *e = s.plan.expiry;
        }
        s.outcome = Some(Ok(s.plan.token.clone()));
        if code == 0x0009_0313 || code == 0x0009_0314 {
            s.pending = Some((h, out.data as usize, out.size as usize));
        }
        s.count(&format!("InitializeSecurityContext returns {code:#x}"));
        code
    })
}

#[no_mangle]
pub unsafe extern "system" fn CompleteAuthToken(context: *const SecHandle, token: *const SecBufferDesc) -> i32 {
    with(|s| {
        s.count("CompleteAuthToken");
        let Some((h, data, size)) = s.pending.take() else {
            s.wrong("CompleteAuthToken was not asked for");
            return INVALID_TOKEN;
        };
        if handle(context) != Some(h) || !s.contexts.contains_key(&h) {
            s.wrong("CompleteAuthToken for another context");
        }
        let buffer = match token.as_ref() {
            Some(d) if d.count == 1 && !d.buffers.is_null() => &mut *d.buffers,
            _ => {
                s.wrong("CompleteAuthToken without a buffer");
                return INVALID_TOKEN;
            }
        };
        if buffer.size as usize != size || (size > 0 && buffer.data as usize != data) {
            s.wrong("CompleteAuthToken for another token");
            return INVALID_TOKEN;
        }
        if s.plan.complete < 0 {
            s.count("CompleteAuthToken fails");
            s.outcome = Some(Err(s.plan.complete));
            return s.plan.complete;
        }
        // completing may change the token
        if let Some(flip) = s.plan.flip {
            let mut done = slice::from_raw_parts(buffer.data as *const u8, if size > 0 { size } else { 0 }).to_vec();
            done.iter_mut().for_each(|b| *b ^= flip);
            if size > 0 {
                std::ptr::copy_nonoverlapping(done.as_ptr(), buffer.data as *mut u8, size);
            }
            s.outcome = Some(Ok(done));
        }
        0
    })
}

#[no_mangle]
pub unsafe extern "system" fn DeleteSecurityContext(context: *const SecHandle) -> i32 {
    with(|s| {
        s.count("DeleteSecurityContext");
        match handle(context) {
            Some(h) if s.contexts.get(&h).map(|c| c.0) == Some(s.owner) => {
                s.contexts.remove(&h);
                s.plan.release
            }
            h => {
                s.wrong(format!("DeleteSecurityContext of {h:x?} which is not this client's live context"));
                INVALID_HANDLE
            }
        }
    })
}

#[no_mangle]
pub unsafe extern "system" fn FreeCredentialsHandle(credential: *const SecHandle) -> i32 {
    with(|s| {
        s.count("FreeCredentialsHandle");
        match handle(credential) {
            Some(h) if s.credentials.get(&h) == Some(&s.owner) => {
                s.credentials.remove(&h);
                s.plan.release
            }
            h => {
                s.wrong(format!("FreeCredentialsHandle of {h:x?} which are not this client's live credentials"));
                INVALID_HANDLE
            }
        }
    })
}

// What the bindings need when an error is turned into text. No text is available.

#[no_mangle]
pub extern "system" fn FormatMessageW(_: u32, _: *const c_void, _: u32, _: u32, buffer: *mut *mut u16, _: u32, _: *const c_void) -> u32 {
    static EMPTY: u16 = 0;
    unsafe { *buffer = std::ptr::addr_of!(EMPTY) as *mut u16 };
    0
}
#[no_mangle]
pub extern "system" fn HeapFree(_: isize, _: u32, _: *const c_void) -> i32 {
    1
}
#[no_mangle]
pub extern "system" fn GetProcessHeap() -> isize {
    1
}
#[no_mangle]
pub extern "system" fn GetErrorInfo(_: u32, _: *mut *mut c_void) -> i32 {
    1
}
#[no_mangle]
pub extern "system" fn GetLastError() -> u32 {
    0
}
#[no_mangle]
pub extern "system" fn SetErrorInfo(_: u32, _: *const c_void) -> i32 {
    0
}
#[no_mangle]
pub extern "system" fn LoadLibraryA(_: *const u8) -> isize {
    0
}
#[no_mangle]
pub extern "system" fn FreeLibrary(_: isize) -> i32 {
    1
}
#[no_mangle]
pub extern "system" fn GetProcAddress(_: isize, _: *const u8) -> *const c_void {
    std::ptr::null()
}
#[no_mangle]
pub extern "system" fn HeapAlloc(_: isize, _: u32, _: usize) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "system" fn SysFreeString(_: *const u16) {}
#[no_mangle]
pub extern "system" fn SysStringLen(_: *const u16) -> u32 {
    0
}
