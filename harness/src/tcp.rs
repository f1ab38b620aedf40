//! Connections over a real socket of the loopback network (the library's own `Stream`).
use crate::{engine::*, mock::*};
use mysql_connector::{types::AuthPlugin, ConnectionOptions, TcpStream, TcpStreamOptions};
use std::{
    future::Future,
    io::{Read, Write},
    net::TcpListener,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    time::Duration,
};

pub struct Serving<P> {
    pub addr: std::net::SocketAddr,
    done: Arc<AtomicBool>,
    thread: std::thread::JoinHandle<(P, Vec<u8>, bool)>,
}

/// serves one connection; `cut`: the server's bytes are written in pieces of this size
pub fn serve<P: Peer + 'static>(peer: P, cut: usize) -> Serving<P> {
    serve_at(peer, cut, 1)
}

/// on 127.0.0.`host`, if there is more than one such address
pub fn listen(host: u8) -> TcpListener {
    TcpListener::bind((format!("127.0.0.{host}"), 0)).or_else(|_| TcpListener::bind("127.0.0.1:0")).expect("loopback")
}

/// as `serve`, on 127.0.0.`host`
pub fn serve_at<P: Peer + 'static>(mut peer: P, cut: usize, host: u8) -> Serving<P> {
    let l = listen(host);
    let addr = l.local_addr().unwrap();
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let thread = std::thread::spawn(move || {
        let (mut c, _) = l.accept().unwrap();
        if d2.load(Ordering::SeqCst) {
            // only woken up
            return (peer, vec![], false);
        }
        drop(l);
        let _ = c.set_nodelay(true);
        let mut rec = vec![];
        let mut out = Out::default();
        let mut buf = vec![0; 1 << 16];
        peer.start(&mut out);
        loop {
            while let Some(seg) = out.segs.pop_front() {
                match seg {
                    Seg::Data(v, p) => {
                        for x in v[p..].chunks(cut.max(1)) {
                            if c.write_all(x).is_err() {
                                return (peer, rec, true);
                            }
                        }
                    }
                    Seg::Delay(d) => std::thread::sleep(d.min(Duration::from_millis(20))),
                    Seg::Eof => {
                        let _ = c.shutdown(std::net::Shutdown::Write);
                    }
                    _ => {}
                }
            }
            match c.read(&mut buf) {
                Ok(0) | Err(_) => return (peer, rec, true),
                Ok(n) => {
                    rec.extend_from_slice(&buf[..n]);
                    peer.input(&buf[..n], &mut out);
                }
            }
        }
    });
    Serving { addr, done, thread }
}

impl<P> Serving<P> {
    /// the peer, the client's bytes, whether the client came
    pub fn join(self) -> (P, Vec<u8>, bool) {
        self.done.store(true, Ordering::SeqCst);
        let _ = std::net::TcpStream::connect(self.addr);
        self.thread.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    }
}

pub fn tcp_options(s: &mut Src, addr: std::net::SocketAddr) -> ConnectionOptions<TcpStream> {
    ConnectionOptions {
        user: "root".into(),
        max_allowed_packet: Some(64 << 20),
        timeout: Duration::from_secs(200),
        auth_plugin: Some(AuthPlugin::Native),
        connection: TcpStreamOptions { host: addr.ip().to_string(), port: addr.port(), nodelay: s.bool() },
        #[cfg(not(feature = "time"))]
        sleep: Some(&|d| Box::pin(tokio::time::sleep(d))),
        ..ConnectionOptions::default()
    }
}

/// on a real clock; a call that takes minutes ends the check with an error (see the watchdog)
pub fn run_tcp<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
