#!/bin/bash
# Builds the simulated clox from /repo's working tree. usage: build.sh [REPO] [OUTDIR]; prints the path of the binary.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${1:-/repo}; out=${2:-$here/../build}
mkdir -p "$out"
exec 9>"$out/.lock"; flock 9
srcs=$(sed -n 's/^SRCS=//p' "$repo/Makefile" | head -1)
key=$( (cd "$repo"; cat $srcs *.h *.inc vendor/*.h 2>/dev/null; cat "$here"/*.[ch] "$here"/build.sh; echo "$repo $srcs") | sha256sum | cut -c1-16)
bin="$out/simd-$key"
if [ -x "$bin" ]; then echo "$bin"; exit 0; fi
ls -t "$out"/simd-* 2>/dev/null | tail -n +6 | while read -r f; do unlink "$f"; done
od="$out/o-$key"; mkdir -p "$od"
wraps="_exit exit abort atexit accept bind chdir chmod chown clock clock_gettime clock_nanosleep close closedir connect execvp fclose fcntl fcntl64 fdopen fileno fopen fork vfork fread freeaddrinfo fstat getaddrinfo getcwd getgrgid getgrnam getpid getppid getpwnam getpwuid gettimeofday glob ioctl isatty kill raise lchown listen lseek lstat malloc calloc realloc free strdup mkdir mkstemp open open64 creat opendir pipe pipe2 pread pwrite read write readv writev readdir rename remove rewinddir rmdir sched_yield select poll sigaction signal socket stat symlink readlink system tcgetattr tcsetattr time umask unlink wait waitpid usleep sleep nanosleep access dup dup2 ftruncate fsync recv send shutdown setsockopt pthread_create pthread_join pthread_detach pthread_exit pthread_self pthread_equal pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_sigmask pthread_kill"
W=""; for w in $wraps; do W="$W -Wl,--wrap=$w"; done
F="-std=gnu99 -O1 -g -w -D_GNU_SOURCE -DNAN_TAGGING -DCOMPUTED_GOTO -DCLOX_SIM -DLX_BUILT_DIR=$repo -U_FORTIFY_SOURCE -fno-omit-frame-pointer -fno-optimize-sibling-calls -no-pie -fno-pie -I$repo -I$repo/vendor -pthread"
jobs_=()
{
for s in $srcs; do
  d=""; [ "$s" = main.c ] && d="-Dmain=clox_main"
  echo "gcc -std=c99 $F -std=c99 -fsanitize-coverage=trace-pc $d -c $repo/$s -o $od/$(echo $s | tr / _).o"
done
for s in core kern simd; do echo "gcc -std=gnu11 -O2 -g -w -fno-omit-frame-pointer -fno-pie -fno-strict-aliasing -c $here/$s.c -o $od/sim_$s.o"; done
} | xargs -P 8 -I{} sh -c '{} || exit 255' 1>&2
gcc -no-pie -rdynamic -pthread $W -o "$bin.tmp" "$od"/*.o -ldl -lm 1>&2
for f in "$od"/*.o; do unlink "$f"; done; rmdir "$od"
mv "$bin.tmp" "$bin"
echo "$bin"
