#!/usr/bin/env python3
"""mk.py DIR MODE...: writes DIR/overlay.json with instrumented copies of files of the Go distribution.

maps: the runtime asks a hook where an iteration over a map starts.
fs: a hook is told of each file operation before it is made, and can make it fail.
"""
import json, os, re, subprocess, sys

out, modes = sys.argv[1], sys.argv[2:]
root = subprocess.check_output(['go', 'env', 'GOROOT'], text=True).strip()
replace = {}


def edit(path, *subs, more=''):
    src = open(os.path.join(root, 'src', path)).read()
    for old, new in subs:
        if src.count(old) != 1:
            sys.exit(f'{path}: {src.count(old)} times {old!r}')
        src = src.replace(old, new)
    src += more
    dst = os.path.join(out, path.replace('/', '_'))
    open(dst, 'w').write(src)
    replace[os.path.join(root, 'src', path)] = dst


if 'maps' in modes:
    edit('runtime/map.go',
         ('\tr := uintptr(rand())\n\tit.startBucket', '\tr := uintptr(rand())\n\tif vhMapHook != nil && getg().goid == vhMapG {\n\t\tr = vhMapHook(h.count, h.B, getcallerpc())\n\t}\n\tit.startBucket'),
         ('// mapiternext should be an internal detail,', '''// vhMapHook is asked for the start of the iterations of the goroutine vhMapG.
//
//go:linkname vhMapHook
var vhMapHook func(count int, b uint8, pc uintptr) uintptr

//go:linkname vhMapG
var vhMapG uint64

//go:linkname vhGoid
func vhGoid() uint64 { return getg().goid }

// mapiternext should be an internal detail,'''))


def hook(path, pkg, calls, more=''):
    """calls: function, the operation and its arguments (dirfd, path, to, fd, flags, p), what it returns."""
    src = open(os.path.join(root, 'src', path)).read()
    subs = []
    for name, args, ret in calls:
        head = re.search(r'^func ' + name + r'\(.*\{\n', src, re.M).group(0)
        subs.append((head, head + f'\tif {pkg}VhFS != nil {{\n\t\tif vhN, vhErr, vhDone := {pkg}VhFS({args}); vhDone {{\n\t\t\t_ = vhN\n\t\t\treturn {ret}\n\t\t}}\n\t}}\n'))
    edit(path, *subs, more=more)


if 'fs' in modes:
    both, err = 'vhN, vhErr', 'vhErr'
    hook('syscall/zsyscall_linux_amd64.go', '', [
        ('fchmodat', '"chmod", dirfd, path, "", -1, 0, nil', err),
        ('linkat', '"link", olddirfd, oldpath, newpath, -1, 0, nil', err),
        ('openat', '"open", dirfd, path, "", -1, flags, nil', both),
        ('readlinkat', '"readlink", dirfd, path, "", -1, 0, nil', both),
        ('symlinkat', '"symlink", newdirfd, newpath, "", -1, 0, nil', err),
        ('unlinkat', '"unlink", dirfd, path, "", -1, flags, nil', err),
        ('utimensat', '"utimes", dirfd, path, "", -1, 0, nil', err),
        ('Close', '"close", _AT_FDCWD, "", "", fd, 0, nil', err),
        ('Fchmod', '"fchmod", _AT_FDCWD, "", "", fd, 0, nil', err),
        ('Fsync', '"fsync", _AT_FDCWD, "", "", fd, 0, nil', err),
        ('Getdents', '"getdents", _AT_FDCWD, "", "", fd, 0, nil', both),
        ('Mkdirat', '"mkdir", dirfd, path, "", -1, 0, nil', err),
        ('read', '"read", _AT_FDCWD, "", "", fd, 0, p', both),
        ('write', '"write", _AT_FDCWD, "", "", fd, 0, p', both),
        ('Fstat', '"fstat", _AT_FDCWD, "", "", fd, 0, nil', err),
        ('Ftruncate', '"ftruncate", _AT_FDCWD, "", "", fd, 0, nil', err),
        ('pread', '"read", _AT_FDCWD, "", "", fd, 0, p', both),
        ('pwrite', '"write", _AT_FDCWD, "", "", fd, 0, p', both),
        ('Renameat', '"rename", olddirfd, oldpath, newpath, -1, 0, nil', err),
        ('fstatat', '"stat", fd, path, "", -1, 0, nil', err),
        ('Truncate', '"truncate", _AT_FDCWD, path, "", -1, 0, nil', err),
    ], '''
// VhFS is told of file operations before they are made. When it returns true the operation isn't made.
var VhFS func(op string, dirfd int, path, to string, fd int, flags int, p []byte) (n int, err error, done bool)
''')
    hook('internal/syscall/unix/at.go', 'syscall.', [
        ('Unlinkat', '"unlink", dirfd, path, "", -1, flags, nil', err),
        ('Openat', '"open", dirfd, path, "", -1, flags, nil', both),
    ])
    hook('internal/syscall/unix/at_fstatat.go', 'syscall.', [
        ('Fstatat', '"stat", dirfd, path, "", -1, 0, nil', err),
    ])
    hook('internal/syscall/unix/copy_file_range_linux.go', 'syscall.', [
        ('CopyFileRange', '"copy", -100, "", "", wfd, 0, nil', both),
    ])
json.dump({'Replace': replace}, open(os.path.join(out, 'overlay.json'), 'w'))
