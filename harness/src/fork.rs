//! A copy of this process, to try things in from the same starting state.
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// What `f` returns in a child process, or how the child ended.
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let (code, out) = match r {
                Ok(b) => (0, b),
                Err(_) => (77, vec![]),
            };
            let mut at = 0;
            while at < out.len() {
                let n = write(fds[1], out[at..].as_ptr().cast(), out.len() - at);
                if n <= 0 {
                    _exit(78);
                }
                at += n as usize;
            }
            _exit(code);
        }
        close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if st == 0 {
            Ok(out)
        } else {
            Err(format!("child ended with status {:#x}", st))
        }
    }
}
