"""What check.py needs to know about each property."""
DEVICE = "the file system is the in-memory device of harness/vfs behind package syscall: regular files, no mmap; os.File and everything above it is the real code"
BOUND = "nothing is claimed beyond the listed bounds and value alphabets"
SCHED = "goroutines are interleaved at channel, select, lock, wait group, atomic, go and I/O operations; accesses between them are checked by the race detector, whose absence of reports makes finer interleavings equivalent"

PROC = "the commands run as processes on real files in a scratch directory; files are judged by the independent decoder of harness/mc/model.go"

META = {
    "C01": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C02": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C03": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C04": dict(level="model_checking", sched=True, assumptions=[SCHED, DEVICE, BOUND]),
    "C05": dict(level="model_checking", sched=True, assumptions=[SCHED, DEVICE, BOUND]),
    "C06": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C07": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C08": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C09": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C10": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C15": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C16": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C11": dict(level="fault_enumeration", rule="every crash state of every write history; distinct: different device contents", assumptions=[DEVICE, BOUND]),
    "C12": dict(level="fault_enumeration", rule="every operation of every write history fails in every way, for every reaction of the caller; distinct: different fault and resulting file", assumptions=[DEVICE, BOUND]),
    "C13": dict(level="fault_enumeration", rule="every subset of the reads of every query fails in every way; distinct: different files, query, kind of failure and set of failing reads", assumptions=[DEVICE, BOUND]),
    "C14": dict(level="fault_enumeration", rule="every truncation length and every metadata field at every value of its bytes and every boundary value; distinct: different file, field and value", assumptions=[DEVICE, BOUND]),
    "C19": dict(level="fault_enumeration", rule="every operation of every history fails, singly, in pairs and from some point on; distinct: different history and set of failing operations", assumptions=[DEVICE, BOUND]),
    "C20": dict(level="model_checking", bins=True, assumptions=[PROC, BOUND]),
    "C21": dict(level="model_checking", bins=True, assumptions=[PROC, BOUND]),
    "C22": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C23": dict(level="model_checking", sched=True, assumptions=[SCHED, DEVICE, BOUND]),
    "C17": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
    "C18": dict(level="model_checking", assumptions=[DEVICE, BOUND]),
}
