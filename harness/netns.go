package main

// The server under test listens on fixed ports, so a driver that runs it does so in a network namespace of its own.

import (
	"errors"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"syscall"
	"unsafe"
)

var areaNS = map[string]bool{}

func loopbackUp() error {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	var ifr [40]byte
	copy(ifr[:], "lo")
	*(*uint16)(unsafe.Pointer(&ifr[16])) = syscall.IFF_UP | syscall.IFF_RUNNING
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&ifr))); e != 0 {
		return e
	}
	return nil
}

// ownNetwork runs this program again in a new network namespace and exits as it does.  When that cannot be done the
// program goes on in the namespace it is in.
func ownNetwork() {
	switch os.Getenv("VERIF_NETNS") {
	case "in":
		if err := loopbackUp(); err != nil {
			infra("loopback: %v", err)
		}
		return
	case "no":
		return
	}
	runtime.LockOSThread()
	c := exec.Command("/proc/self/exe", os.Args[1:]...)
	c.Stdin, c.Stdout, c.Stderr = os.Stdin, os.Stdout, os.Stderr
	c.Env = append(os.Environ(), "VERIF_NETNS=in")
	c.SysProcAttr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	if err := c.Start(); err != nil {
		os.Setenv("VERIF_NETNS", "no")
		return
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		c.Process.Kill()
	}()
	err := c.Wait()
	var x *exec.ExitError
	if errors.As(err, &x) {
		if code := x.ExitCode(); code >= 0 {
			os.Exit(code)
		}
		os.Exit(2)
	}
	if err != nil {
		infra("%v", err)
	}
	os.Exit(0)
}
