//! A simulated JACK server behind the functions of jack-sys. The simulator decides whether the
//! library and the server are there, which calls fail, and when each callback happens with how
//! many frames. The `jack` crate on top is the real one.
#![allow(non_camel_case_types, non_upper_case_globals, clippy::missing_safety_doc)]

mod consts;
mod types;
mod unused;

pub use consts::*;
pub use types::*;
pub use unused::*;

use libc::{c_char, c_int, c_ulong, c_void, size_t};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};

pub mod sim {
    use super::*;

    /// Written around every port buffer
    pub const GUARD: f32 = -7.75e19;
    pub const GUARD_LEN: usize = 32;

    #[derive(Default)]
    pub struct Server {
        pub no_library: bool,
        pub no_server: bool,
        pub sample_rate: u32,
        pub buffer_size: u32,
        /// The call (counted from 0) of jack_port_register that fails
        pub fail_register: Option<u32>,
        pub fail_activate: bool,
        pub fail_deactivate: bool,
        pub registered: u32,
        pub next: usize,
        pub clients: BTreeMap<usize, Client>,
        pub port_owner: BTreeMap<usize, usize>,
        /// Calls with pointers that belong to nothing, writes outside buffers
        pub misuse: Vec<String>,
        pub calls: u64,
    }
    #[derive(Default)]
    pub struct Client {
        pub name: CString,
        pub active: bool,
        pub process: Option<(JackProcessCallback, usize)>,
        pub buffer_size: Option<(JackBufferSizeCallback, usize)>,
        pub sample_rate: Option<(JackSampleRateCallback, usize)>,
        pub xrun: Option<(JackXRunCallback, usize)>,
        pub graph_order: Option<(JackGraphOrderCallback, usize)>,
        pub freewheel: Option<(JackFreewheelCallback, usize)>,
        pub port_connect: Option<(JackPortConnectCallback, usize)>,
        pub thread_init: Option<(JackThreadInitCallback, usize)>,
        pub shutdown: Option<(JackInfoShutdownCallback, usize)>,
        pub thread_started: bool,
        pub ports: Vec<usize>,
        pub data: BTreeMap<usize, Port>,
        /// The process callback asked to be removed
        pub quit: bool,
    }
    pub struct Port {
        pub name: CString,
        pub input: bool,
        pub buffer: Vec<f32>,
        pub frames: u32,
    }
    thread_local! {
        pub static SERVER: RefCell<Server> = RefCell::new(Server::default());
    }
    pub fn with<R>(f: impl FnOnce(&mut Server) -> R) -> R {
        SERVER.with(|s| f(&mut s.borrow_mut()))
    }
    /// A new server. Clients of the old one are forgotten.
    pub fn reset(sample_rate: u32, buffer_size: u32) {
        with(|s| {
            *s = Server {
                sample_rate,
                buffer_size,
                next: 16,
                ..Server::default()
            }
        });
    }
    pub fn active() -> Vec<usize> {
        with(|s| {
            s.clients
                .iter()
                .filter(|(_, c)| c.active && !c.quit)
                .map(|(k, _)| *k)
                .collect()
        })
    }
    /// One period for one client. `input(port, frame)` gives the input; outputs start out as
    /// `garbage`, and `run` calls its argument, which is the callback. Returns what the callback returned and the output port buffers.
    pub fn process(
        client: usize,
        frames: u32,
        garbage: f32,
        mut input: impl FnMut(usize, usize) -> f32,
        run: impl FnOnce(&mut dyn FnMut()),
    ) -> (i32, Vec<Vec<f32>>) {
        let init = with(|s| {
            let c = s.clients.get_mut(&client).unwrap();
            let init = if c.thread_started { None } else { c.thread_init };
            c.thread_started = true;
            let (mut ni, ports) = (0, c.ports.clone());
            for p in ports {
                let p = c.data.get_mut(&p).unwrap();
                let n = frames as usize;
                p.frames = frames;
                p.buffer = vec![GUARD; n + 2 * GUARD_LEN];
                for i in 0..n {
                    p.buffer[GUARD_LEN + i] = if p.input { input(ni, i) } else { garbage };
                }
                if p.input {
                    ni += 1;
                }
            }
            init
        });
        unsafe {
            if let Some((Some(f), a)) = init {
                f(a as *mut c_void);
            }
            let cb = with(|s| s.clients.get(&client).unwrap().process);
            let mut r = 0;
            if let Some((Some(f), a)) = cb {
                run(&mut || r = f(frames, a as *mut c_void));
            }
            with(|s| {
                let mut outs = vec![];
                let Some(c) = s.clients.get_mut(&client) else {
                    return (r, outs);
                };
                if r != 0 {
                    c.quit = true;
                }
                for p in c.ports.clone() {
                    let p = &c.data[&p];
                    let n = frames as usize;
                    let ok = p.buffer[..GUARD_LEN]
                        .iter()
                        .chain(&p.buffer[GUARD_LEN + n..])
                        .all(|x| *x == GUARD);
                    if !ok {
                        s.misuse.push(format!("write outside of the buffer of port {:?}", p.name));
                    }
                    if !p.input {
                        outs.push(p.buffer[GUARD_LEN..GUARD_LEN + n].to_vec());
                    }
                }
                (r, outs)
            })
        }
    }
    /// The server changes its period
    pub fn set_buffer_size(frames: u32) -> i32 {
        let cbs: Vec<_> = with(|s| {
            s.buffer_size = frames;
            s.clients
                .values()
                .filter(|c| c.active && !c.quit)
                .filter_map(|c| c.buffer_size)
                .collect()
        });
        let mut r = 0;
        for (f, a) in cbs {
            if let Some(f) = f {
                r |= unsafe { f(frames, a as *mut c_void) };
            }
        }
        r
    }
    /// Other notifications: 0 xrun, 1 graph order, 2 freewheel, 3 ports connected, 4 sample rate
    pub fn notify(kind: u8, arg: u32) -> i32 {
        let mut r = 0;
        for k in active() {
            unsafe {
                match kind {
                    0 => {
                        if let Some((Some(f), a)) = with(|s| s.clients[&k].xrun) {
                            r |= f(a as *mut c_void);
                        }
                    }
                    1 => {
                        if let Some((Some(f), a)) = with(|s| s.clients[&k].graph_order) {
                            r |= f(a as *mut c_void);
                        }
                    }
                    2 => {
                        if let Some((Some(f), a)) = with(|s| s.clients[&k].freewheel) {
                            f((arg & 1) as c_int, a as *mut c_void);
                        }
                    }
                    3 => {
                        if let Some((Some(f), a)) = with(|s| s.clients[&k].port_connect) {
                            f(arg, arg + 1, 1, a as *mut c_void);
                        }
                    }
                    _ => {
                        if let Some((Some(f), a)) = with(|s| s.clients[&k].sample_rate) {
                            r |= f(with(|s| s.sample_rate), a as *mut c_void);
                        }
                    }
                }
            }
        }
        r
    }
    /// The server goes away: every active client is told and no longer called
    pub fn shutdown() {
        let cbs: Vec<_> = with(|s| {
            s.no_server = true;
            s.clients
                .values_mut()
                .filter(|c| c.active && !c.quit)
                .filter_map(|c| {
                    c.quit = true;
                    c.shutdown
                })
                .collect()
        });
        let reason = CString::new("server went away").unwrap();
        for (f, a) in cbs {
            if let Some(f) = f {
                unsafe { f(0x20, reason.as_ptr(), a as *mut c_void) };
            }
        }
    }
}

use sim::with;

/// There is no library, only something to tell whether the simulated one is there
pub struct Library;
pub fn library() -> Result<&'static Library, std::io::Error> {
    if with(|s| s.no_library) {
        return Err(std::io::Error::other("libjack.so.0: cannot open shared object file"));
    }
    Ok(&Library)
}

fn client<R>(what: &str, c: *mut jack_client_t, f: impl FnOnce(&mut sim::Client) -> R) -> Option<R> {
    with(|s| {
        s.calls += 1;
        match s.clients.get_mut(&(c as usize)) {
            Some(c) => Some(f(c)),
            None => {
                s.misuse.push(format!("{what} for a client that is not open"));
                None
            }
        }
    })
}

pub unsafe fn jack_client_open(
    client_name: *const c_char,
    _options: jack_options_t,
    status: *mut jack_status_t,
) -> *mut jack_client_t {
    let name = unsafe { CStr::from_ptr(client_name) }.to_owned();
    with(|s| {
        s.calls += 1;
        if s.no_server {
            unsafe { *status = 0x01 | 0x10 };
            return std::ptr::null_mut();
        }
        unsafe { *status = 0 };
        s.next += 16;
        s.clients.insert(
            s.next,
            sim::Client {
                name,
                ..Default::default()
            },
        );
        s.next as *mut jack_client_t
    })
}
pub unsafe fn jack_client_close(client: *mut jack_client_t) -> c_int {
    with(|s| {
        s.calls += 1;
        match s.clients.remove(&(client as usize)) {
            Some(c) => {
                for p in c.ports {
                    s.port_owner.remove(&p);
                }
                0
            }
            None => {
                s.misuse.push("close of a client that is not open".into());
                1
            }
        }
    })
}
pub unsafe fn jack_client_name_size() -> c_int {
    64
}
pub unsafe fn jack_port_name_size() -> c_int {
    256
}
pub unsafe fn jack_port_type_size() -> c_int {
    32
}
pub unsafe fn jack_get_client_name(c: *mut jack_client_t) -> *mut c_char {
    client("jack_get_client_name", c, |c| c.name.as_ptr() as *mut c_char)
        .unwrap_or(std::ptr::null_mut())
}
pub unsafe fn jack_activate(c: *mut jack_client_t) -> c_int {
    if with(|s| s.fail_activate) {
        return -1;
    }
    client("jack_activate", c, |c| c.active = true).map_or(-1, |_| 0)
}
pub unsafe fn jack_deactivate(c: *mut jack_client_t) -> c_int {
    let fail = with(|s| s.fail_deactivate);
    // Whether or not it reports success, the client is not called any more
    let r = client("jack_deactivate", c, |c| c.active = false).map_or(-1, |_| 0);
    if fail {
        -1
    } else {
        r
    }
}
macro_rules! setters {
    ($($name:ident $field:ident $ty:ident;)*) => {$(
        pub unsafe fn $name(c: *mut jack_client_t, f: $ty, arg: *mut c_void) -> c_int {
            client(stringify!($name), c, |c| c.$field = Some((f, arg as usize))).map_or(-1, |_| 0)
        }
    )*};
}
setters! {
    jack_set_process_callback process JackProcessCallback;
    jack_set_thread_init_callback thread_init JackThreadInitCallback;
    jack_set_freewheel_callback freewheel JackFreewheelCallback;
    jack_set_buffer_size_callback buffer_size JackBufferSizeCallback;
    jack_set_sample_rate_callback sample_rate JackSampleRateCallback;
    jack_set_port_connect_callback port_connect JackPortConnectCallback;
    jack_set_graph_order_callback graph_order JackGraphOrderCallback;
    jack_set_xrun_callback xrun JackXRunCallback;
}
pub unsafe fn jack_on_info_shutdown(
    c: *mut jack_client_t,
    f: JackInfoShutdownCallback,
    arg: *mut c_void,
) {
    client("jack_on_info_shutdown", c, |c| c.shutdown = Some((f, arg as usize)));
}
pub unsafe fn jack_set_client_registration_callback(
    c: *mut jack_client_t,
    _f: JackClientRegistrationCallback,
    _arg: *mut c_void,
) -> c_int {
    client("jack_set_client_registration_callback", c, |_| ()).map_or(-1, |_| 0)
}
pub unsafe fn jack_set_port_registration_callback(
    c: *mut jack_client_t,
    _f: JackPortRegistrationCallback,
    _arg: *mut c_void,
) -> c_int {
    client("jack_set_port_registration_callback", c, |_| ()).map_or(-1, |_| 0)
}
pub unsafe fn jack_set_sync_callback(
    c: *mut jack_client_t,
    _f: JackSyncCallback,
    _arg: *mut c_void,
) -> c_int {
    client("jack_set_sync_callback", c, |_| ()).map_or(-1, |_| 0)
}
pub unsafe fn jack_get_sample_rate(c: *mut jack_client_t) -> c_int {
    client("jack_get_sample_rate", c, |_| ());
    with(|s| s.sample_rate as c_int)
}
pub unsafe fn jack_get_buffer_size(c: *mut jack_client_t) -> jack_nframes_t {
    client("jack_get_buffer_size", c, |_| ());
    with(|s| s.buffer_size)
}
pub unsafe fn jack_port_register(
    c: *mut jack_client_t,
    port_name: *const c_char,
    _port_type: *const c_char,
    flags: c_ulong,
    _buffer_size: c_ulong,
) -> *mut jack_port_t {
    let name = unsafe { CStr::from_ptr(port_name) }.to_owned();
    with(|s| {
        s.calls += 1;
        let n = s.registered;
        s.registered += 1;
        if s.fail_register == Some(n) {
            return std::ptr::null_mut();
        }
        let Some(cl) = s.clients.get_mut(&(c as usize)) else {
            s.misuse.push("port registered for a client that is not open".into());
            return std::ptr::null_mut();
        };
        if cl.data.values().any(|p| p.name == name) {
            return std::ptr::null_mut();
        }
        s.next += 16;
        cl.ports.push(s.next);
        cl.data.insert(
            s.next,
            sim::Port {
                name,
                input: flags & 1 != 0,
                buffer: vec![],
                frames: 0,
            },
        );
        s.port_owner.insert(s.next, c as usize);
        s.next as *mut jack_port_t
    })
}
pub unsafe fn jack_port_unregister(c: *mut jack_client_t, port: *mut jack_port_t) -> c_int {
    with(|s| {
        s.calls += 1;
        let p = port as usize;
        match s.clients.get_mut(&(c as usize)) {
            Some(cl) if cl.data.contains_key(&p) => {
                cl.data.remove(&p);
                cl.ports.retain(|x| *x != p);
                s.port_owner.remove(&p);
                0
            }
            _ => {
                s.misuse.push("unregistering a port that is not registered".into());
                1
            }
        }
    })
}
pub unsafe fn jack_port_get_buffer(port: *mut jack_port_t, nframes: jack_nframes_t) -> *mut c_void {
    with(|s| {
        s.calls += 1;
        let p = port as usize;
        let found = s
            .port_owner
            .get(&p)
            .copied()
            .and_then(|c| s.clients.get_mut(&c))
            .and_then(|c| c.data.get_mut(&p));
        match found {
            Some(port) => {
                if port.frames != nframes {
                    s.misuse.push("buffer asked for with another number of frames".into());
                }
                port.buffer[sim::GUARD_LEN..].as_mut_ptr() as *mut c_void
            }
            None => {
                s.misuse.push("buffer of a port that is not registered".into());
                std::ptr::null_mut()
            }
        }
    })
}
fn port_name(port: usize) -> *const c_char {
    with(|s| {
        s.port_owner
            .get(&port)
            .and_then(|c| s.clients.get(c))
            .and_then(|c| c.data.get(&port))
            .map_or(std::ptr::null(), |p| p.name.as_ptr())
    })
}
pub unsafe fn jack_port_name(port: *const jack_port_t) -> *const c_char {
    port_name(port as usize)
}
pub unsafe fn jack_port_short_name(port: *const jack_port_t) -> *const c_char {
    port_name(port as usize)
}
pub unsafe fn jack_port_type_get_buffer_size(
    _c: *mut jack_client_t,
    _port_type: *const c_char,
) -> size_t {
    with(|s| s.buffer_size as size_t * 4)
}
pub unsafe fn jack_get_time() -> jack_time_t {
    0
}
pub unsafe fn jack_set_error_function(_f: Option<unsafe extern "C" fn(*const c_char)>) {}
pub unsafe fn jack_set_info_function(_f: Option<unsafe extern "C" fn(*const c_char)>) {}
pub unsafe fn jack_free(_ptr: *mut c_void) {}
