//! Sanity of the kernel and the explorer.
use checks::*;
use vstd::sync::{atomic::*, mpsc, Arc, LazyLock, Mutex, OnceLock};
use vstd::thread;

fn main() {
    let mut ck = Check::start("SELF");
    ck.pure("count", opts(), || {
        let a = rt::pick(10);
        let b = rt::pick(a + 1);
        rt::state(rt::hash_of(&(a, b)));
        rt::count("leaf");
    });
    ck.rt("mutex", opts().sched(3), || {
        let m = Arc::new(Mutex::new(0));
        let hs: Vec<_> = (0..3)
            .map(|_| {
                let m = m.clone();
                thread::spawn(move || {
                    let v = { *m.lock().unwrap() };
                    *m.lock().unwrap() = v + 1;
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        let v = *m.lock().unwrap();
        rt::count(&format!("final {}", v));
    });
    ck.rt("chan", opts().sched(2), || {
        let (tx, rx) = mpsc::channel();
        let t2 = tx.clone();
        thread::spawn(move || tx.send(1).unwrap());
        thread::spawn(move || t2.send(2).unwrap());
        let a: Vec<i32> = rx.iter().collect();
        assert_eq!(a.len(), 2);
        rt::count(&format!("{:?}", a));
    });
    // statics are new in every execution, and initialised once in it
    ck.rt("statics", opts().sched(2), || {
        static N: AtomicUsize = AtomicUsize::new(7);
        static L: LazyLock<Mutex<Vec<usize>>> = LazyLock::new(|| {
            rt::point();
            Mutex::new(vec![N.fetch_add(1, Ordering::SeqCst)])
        });
        static O: OnceLock<usize> = OnceLock::new();
        static M: Mutex<Vec<usize>> = Mutex::new(vec![]);
        assert!(O.get().is_none() && N.load(Ordering::SeqCst) == 7 && M.lock().unwrap().is_empty());
        let hs: Vec<_> = (0..2)
            .map(|i| {
                thread::spawn(move || {
                    L.lock().unwrap().push(i);
                    let o = *O.get_or_init(|| {
                        rt::point();
                        i
                    });
                    M.lock().unwrap().push(o);
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        assert_eq!(O.set(9), Err(9));
        assert_eq!(N.load(Ordering::SeqCst), 8);
        assert_eq!(L.lock().unwrap().len(), 3);
        rt::count(&format!("{:?} {:?}", L.lock().unwrap(), M.lock().unwrap()));
        if rt::pick_bool() {
            std::mem::forget(M.lock().unwrap());
        }
    });
    if std::env::var("BAD").is_ok() {
        ck.rt("deadlock", opts().sched(2), || {
            let a = Arc::new(Mutex::new(0));
            let b = Arc::new(Mutex::new(0));
            let (a2, b2) = (a.clone(), b.clone());
            let h = thread::spawn(move || {
                let _x = a2.lock().unwrap();
                let _y = b2.lock().unwrap();
            });
            {
                let _y = b.lock().unwrap();
                let _x = a.lock().unwrap();
            }
            h.join().unwrap();
        });
    }
    match std::env::var("BAD2").as_deref() {
        Ok("hang") => ck.pure("hang", opts(), || {
            if rt::pick(5) == 3 {
                loop {}
            }
        }),
        Ok("mem") => ck.pure("mem", opts(), || {
            if rt::pick(5) == 3 {
                let mut v = vec![];
                loop {
                    v.push(0u64)
                }
            }
        }),
        Ok("stack") => ck.rt("stack", opts(), || {
            fn f(n: u64) -> u64 {
                if n == u64::MAX { 0 } else { f(n + 1) + vstd::hint::black_box(n) }
            }
            if rt::pick(5) == 3 {
                f(0);
            }
        }),
        Ok("static") => ck.rt("static", opts().sched(2), || {
            // one the kernel cannot see
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            if N.fetch_add(1, Ordering::SeqCst) % 2 == 0 {
                rt::pick(3);
            }
        }),
        _ => {}
    }
    ck.finish()
}
