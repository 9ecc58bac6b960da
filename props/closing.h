/*
 * Whoever closes a descriptor which is not open could have as well closed
 * somebody else's one, opened by another thread in the meantime. That's why
 * close() is replaced for everyone, including GLib.
 */
#ifndef CLOSING_H
#define CLOSING_H

#include <errno.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>

inline int closed_wrong_fd = -1;
inline bool watch_closing;

extern "C" __attribute__((weak)) int close(int fd)
{
    if (watch_closing && fd >= 0 && fcntl(fd, F_GETFD) < 0) {
        closed_wrong_fd = fd;
    }
    return (int)syscall(SYS_close, fd);
}

struct ClosingCheck {
    vp::Ctx& c;
    ClosingCheck(vp::Ctx& ctx) : c(ctx) { watch_closing = true; closed_wrong_fd = -1; }
    ~ClosingCheck() { watch_closing = false; }
    void done() {
        VP_CHECK(c, closed_wrong_fd < 0, "closing a descriptor which isn't open (and may be already used by someone else)");
    }
};

#endif
