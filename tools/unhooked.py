#!/usr/bin/env python3
"""unhooked.py FILE...: exit 0 if one of the files uses a synchronisation primitive of std or of a
crate without scheduling points."""
import re, sys

USE = re.compile(
    r"\b(std|core)\s*::\s*sync\s*::\s*(\{[^;]*?\b)?(Mutex|RwLock|Condvar|Once\w*|LazyLock|Barrier|atomic|mpsc|Exclusive|ReentrantLock)\b"
    r"|\b(std|core)\s*::\s*\{[^;]*\bsync\s*::\s*(\{[^;]*?\b)?(Mutex|RwLock|Condvar|Once\w*|LazyLock|Barrier|atomic|mpsc)\b"
    r"|\b(parking_lot|crossbeam\w*|UnsafeCell|SyncUnsafeCell|AtomicWaker)\b|\bstatic\s+mut\b|\buse\s+(std|core)::sync\s*(;|::\s*(\*|self|\{[^;]*\bself\b))"
)
for f in sys.argv[1:]:
    s = re.sub(r"//[^\n]*", "", open(f, errors="replace").read())
    if USE.search(s):
        sys.exit(0)
sys.exit(1)
