#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = ("model-based monitoring of generated operation histories",
        "Runs generated and boundary histories through the real buffer and compares everything readable with a plain model after every few operations and after each reuse. Says nothing about histories not run; trusts the model.")
CODEC = ("round-trip monitoring against an independent decoder",
         "Runs the real encoder on exhaustive small, boundary and random inputs and decodes with an independently written decoder. Inputs not run are not covered; trusts the independent decoder.")
ENC = ("trace monitoring of emitted blocks at the block sink, independent decoder",
       "Records every block the real encoder hands to its sink for generated columns and groupings and decodes it with an independent decoder of the documented layout. Columns not run are not covered.")
FAULT = "fault_enumeration"
T = {
    "C01": HIST, "C02": HIST, "C03": HIST, "C04": HIST, "C05": HIST,
    "C06": ("monitoring of refusals over generated buffers", "Every refusal must be a panic or error and leave the rows in place; buffers not generated are not covered."),
    "C07": ("monitoring at the real 32-bit limits", "Six scenarios grow real buffers and encoders to 2^32 bytes and rows; intermediate sizes are covered elsewhere."),
    "C08": CODEC, "C09": CODEC, "C10": ("frame-level trace monitor over the encoded validity", CODEC[1]), "C11": CODEC,
    "C12": ENC, "C13": ENC, "C14": ENC, "C15": ENC,
    "C16": ("differential monitoring of block streams across groupings", ENC[1]),
    "C17": ("fault injection at every block store, trace monitor at the sink", "Fails each block store of a generated column in turn (all for short columns, sampled for long ones); real error values only through the sink interface."),
    "C18": ("acceptance matrix with lossless-storage monitor", "Asks for every encoding of every type and checks refusal or lossless storage; one listed finding (Snappy)."),
    "C19": ("file-content oracle over generated block sequences", "Real files, all bytes compared; sequences not run are not covered."),
    "C20": ("exactly-once/ordering monitor over batched reads with injected delays and failures", "Read completion order is perturbed at the pread boundary; schedules not seen are not covered."),
    "C21": ("error-oracle over out-of-range reads with allocation and time watchdogs", "Ranges drawn around every boundary; a crash, hang or huge allocation of the process is seen by the driver."),
    "C22": ("concurrency monitor over shared readers with injected delays", "Threads and tasks with perturbed reads; schedules not seen are not covered."),
    "C23": ("whole-file oracle over generated segments, independent decoder", "Every byte of the data file is accounted for; segments not generated are not covered."),
    "C24": ("independent parse of index files against the writer's inputs", "The parser is frozen in the harness from the published field numbers; segments not generated are not covered."),
    "C25": ("system-call trace monitor of created files and directory listing", "Sees opens of the process through libc; directories and ids not generated are not covered."),
    "C26": ("system-call fault injection at every fault point, error oracle", "Every create/write/sync of a run is failed in turn (sampled when there are many), errno and short-write-then-error variants; one fault per run plus real file-system errors."),
    "C27": ("happens-before monitor over the system-call trace", "Checks each successful sync against the observed order of writes and full syncs, also with injected faults; trusts fsync to do what it says."),
    "C28": ("interruption and partial-completion injection at the system-call boundary", "EINTR and short transfers at random points; content and results compared with undisturbed expectations."),
    "C29": ("differential monitoring of concurrent against isolated segment writes", "Interleavings are perturbed with delays at the write boundary and counted; schedules not seen are not covered."),
    "C30": ("black-box monitoring of the real server binary over generated command lines and environments", "The configuration is printed by a guarded hook at the start of the server; values not generated are not covered. One listed finding (help text of a dependency)."),
    "C31": ("AddressSanitizer, ThreadSanitizer, MemorySanitizer and Miri over the other monitors' workloads", "Only executed paths and schedules are judged; tokio paths not under Miri."),
    "C32": ("range oracle over index files against the recorded block index", "Accepts any range inside the file after the signature that can hold one entry per block; one listed finding (block index is not stored)."),
    "C33": ("crash injection at every observed system call, prefix and rewrite oracle", "A child process is killed at (sampled) open/write/sync calls and mid-write; process crash, not power loss."),
    "C34": ("system-call trace and allocation monitor over batched reads", "Counts the operations started against the results taken at every step, at the pread boundary, with delays; batches not run are not covered."),
    "C35": ("open-file and allocation monitor over repeated uses, with fault injection", "Looks at /proc/self/fd and live bytes after each repetition of a generated set of uses, one failing call per set."),
    "C36": ("allocation monitor over long streams of buffers", "Compares live bytes late in a column with those early in it, against a bound far below the data streamed; slow growth below the bound is not seen."),
    "C37": ("whole-file oracle over segments with dropped and refused columns", "Same independent decoders as C23/C24; sequences not generated are not covered."),
    "C38": ("liveness monitor with system calls held at the libc boundary until other tasks got on", "A held call returns only after other tasks had turns or finished; 20 s without any is a violation. Opens, reads, writes and syncs are held, closing and status calls are not."),
    "C39": ("differential oracle over damaged and hostile encodings, also under Miri and AddressSanitizer (C31)", "Independent decoder of the documented format; bytes not generated are not covered."),
    "C40": ("history monitor over flushes and closes, with an independent decoder", "Every flush is judged against the rows pending at that moment; histories not generated are not covered."),
}
LEVEL = {"C17": FAULT, "C26": FAULT, "C27": FAULT, "C28": FAULT, "C33": FAULT, "C35": FAULT, "C38": FAULT}
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
commits = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("verif:")]
m = dict(
    version=1,
    setup_cmd="python3 check.py setup",
    hooks=dict(guard="cfg(meerkat_verif)", enable='RUSTFLAGS="--cfg meerkat_verif" cargo build (the harness depends on /repo by path)', source_commits=commits),
    checks=[dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, technique=T[p][0], level=LEVEL.get(p, "exploration"), level_note=T[p][1]) for p in sorted(T)],
    not_applicable=[],
    notes="Exit 2 with INCONCLUSIVE means no answer (build failure, machine trouble, workload observed too little). check.py replay FILE reruns a recorded case. See DESIGN.md.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
