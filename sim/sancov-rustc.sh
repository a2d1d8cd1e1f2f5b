#!/bin/bash
# RUSTC_WRAPPER: the crates of the system under test are compiled with edge
# callbacks (logical clock, coverage, preemption points) and with every atomic
# operation sent through the simulator; the harness is not.
rustc="$1"; shift
n=; t=; prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then n="$a"; fi
  if [ "$prev" = "--target" ]; then t="$a"; fi
  prev="$a"
done
# Build scripts and macros run on the host side of the build: leave them be.
[ -n "$t" ] || exec "$rustc" "$@"
case "$n" in
  boxcars|glue|bitter|fnv|encoding_rs|phf|phf_shared|serde|serde_core|serde_json|itoa|ryu|zmij|memchr)
    exec "$rustc" "$@" "-Cpasses=sancov-module,function(tsan)" \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 \
      -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  boxsim)
    exec "$rustc" "$@" -Clink-arg=-Wl,--wrap=syscall,--wrap=getrandom,--wrap=memmove,--wrap=memcpy,--wrap=clock_gettime,--wrap=memset,--wrap=memcmp,--wrap=bcmp,--wrap=getenv,--wrap=sched_getaffinity \
      -Clink-arg=-Wl,--wrap=write,--wrap=writev,--wrap=pwrite64,--wrap=read,--wrap=readv,--wrap=pread64,--wrap=open,--wrap=open64,--wrap=openat,--wrap=openat64,--wrap=creat,--wrap=creat64,--wrap=unlink,--wrap=unlinkat,--wrap=rename,--wrap=mkdir,--wrap=rmdir,--wrap=opendir,--wrap=statx,--wrap=stat,--wrap=stat64,--wrap=lstat64,--wrap=fstat64,--wrap=fstatat64,--wrap=access,--wrap=readlink,--wrap=realpath,--wrap=getcwd,--wrap=chdir,--wrap=truncate64,--wrap=ftruncate64,--wrap=symlink,--wrap=link,--wrap=chmod,--wrap=socket,--wrap=connect,--wrap=bind,--wrap=listen,--wrap=accept4,--wrap=sendto,--wrap=send,--wrap=sendmsg,--wrap=recv,--wrap=recvfrom,--wrap=getaddrinfo,--wrap=pipe,--wrap=pipe2,--wrap=dup,--wrap=dup2,--wrap=ioctl,--wrap=isatty,--wrap=poll,--wrap=pthread_create,--wrap=pthread_kill,--wrap=fork,--wrap=posix_spawn,--wrap=posix_spawnp,--wrap=execvp,--wrap=execve,--wrap=kill,--wrap=setenv,--wrap=unsetenv,--wrap=putenv,--wrap=sigaction,--wrap=signal,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep,--wrap=setrlimit,--wrap=setpriority,--wrap=sched_setaffinity,--wrap=setlocale,--wrap=memfd_create,--wrap=mkstemp64,--wrap=flock,--wrap=fsync,--wrap=fdatasync,--wrap=fcntl,--wrap=fcntl64,--wrap=fopen64 ;;
  *) exec "$rustc" "$@" ;;
esac
