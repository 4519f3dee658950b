package vsched

import "golang.org/x/sys/unix"

// The calls of package unix that wait. What they wait for is real, the kernel
// reports it as soon as it has happened.

// Instances are used again: it takes long to get rid of one.
var inotifyFree []int

func readable(fd int) bool {
	p := []unix.PollFd{{Fd: int32(fd), Events: unix.POLLIN}}
	n, err := unix.Poll(p, 0)
	return n > 0 || err != nil && err != unix.EINTR
}

func InotifyInit1(flags int) (int, error) {
	e := active()
	if e == nil {
		return unix.InotifyInit1(flags)
	}
	if n := len(inotifyFree); n > 0 {
		fd := inotifyFree[n-1]
		inotifyFree = inotifyFree[:n-1]
		e.fds = append(e.fds, fd)
		var b [4096]byte
		for readable(fd) {
			if _, err := unix.Read(fd, b[:]); err != nil {
				return 0, err
			}
		}
		return fd, nil
	}
	fd, err := unix.InotifyInit1(flags)
	if err == nil {
		e.fds = append(e.fds, fd)
	}
	return fd, err
}

func (e *Exec) closeFiles() {
	inotifyFree = append(inotifyFree, e.fds...)
	e.fds = nil
}

func UnixRead(fd int, b []byte) (int, error) {
	e := active()
	if e == nil {
		return unix.Read(fd, b)
	}
	if e.ending {
		return 0, unix.EBADF
	}
	e.block("read", func() bool { return readable(fd) })
	return unix.Read(fd, b)
}
