S = "Seeded sampling, not enumeration: a clean batch is evidence, not proof. "
NOTE = {
"C01": ("seeded crash, signal and disk-error injection at every file operation of real generation runs (libc seam), outputs observed at each step", S + "Process crashes only (no power loss); trusts the libc seam and tmpfs."),
"C02": ("seeded failing inputs, components and disk faults in real CLI/library runs, compared with fault-free reference runs", S + "Failures while writing are judged by the success half only."),
"C03": ("multi-project runs with seeded failing projects and disk faults, compared with solo reference runs", S + "Projects of one run share a process but no output file."),
"C05": ("seeded interleaving of several real generation processes at every file operation (libc seam), with crashes; readers observe outputs at every step", S + "Interleaving points are file operations below the project root."),
"C04": ("replay of one generation under simulated hash seeds, locales, directory orders, clocks, directories and entry points, outputs compared byte for byte", S + "Interpreters with other hash seeds and locales are persistent satellites; the sampled set of each run is seeded."),
"C06": ("in-process simulated DNS/TCP/TLS/HTTP with seeded per-exchange faults under the real HTTP client, outcome judged against the schema the server published", S + "TLS records themselves are not simulated (the socket is wrapped after the handshake)."),
"C07": ("seeded partitions of a schema over files and simulated servers with file and network faults, compared with the single-source run", S + "Directory listing faults are excluded (glob hides them)."),
"C08": ("wire log of the simulated network checked per source for configured headers under seeded faults and fallbacks", S + "Requests the HTTP library issues while following redirects may lose Cookie and Content-Type."),
"C09": ("virtual clock and servers that fall silent at seeded points of an exchange; termination, isolation and outputs checked in simulated time", S + "Peers that trickle bytes forever are outside the property."),
"C14": ("seeded histories of crashed, failed, interrupted and completed runs over one directory tree, compared with an uninterrupted reference and a file census", S + "Files left by a process that was killed outright are tolerated until the next run's census only if they do not influence it."),
"C15": ("seeded crash, signal, disk and network faults during real downloads, targets observed at each file operation and rebuilt against the published schema", S + "Equivalence is canonical-schema equality."),
"C16": ("seeded prompt answers, crashes, interrupts and disk faults at every file operation of real init runs", S + "Faults on the existence test itself are excluded."),
"C10": ("scripted external commands with seeded reads, writes, exits, signals, undecodable output and process-creation faults under the real processor chain, result compared with a model of the chain", S + "Kernel pipe scheduling is not controlled; both sides only communicate through blocking pipe reads."),
"C11": ("seeded repartitions, removals and file faults of the document set in real generation runs, compared with the reference run over the consistent document set", S + "Directory-listing faults are excluded (glob hides them)."),
"C12": ("simulated notification service and seeded edit histories interleaved with the file operations of a real `turms watch` process, with disk faults; every generation compared with a one-shot run", S + "Directory renames are excluded; the configuration is read once."),
"C13": ("seeded histories of schema changes, hand edits, crashed, failed and completed regenerations with the merge processor; every step judged against the recorded edits, a fresh generation, an import and a repetition", S + "Comments on a generated field that turns into a function may go with the field."),
"C17": ("generated call functions driven by overlapping simulated callers on a virtual-time event loop or a seeded thread scheduler, with lost, delayed, failing, retried and cancelled exchanges; every caller's observation compared with its own exchange", S + "Threads are switched at lines of generated code, not inside libraries."),
"C18": ("generated subscription functions driven by simulated streams (gaps, bursts, errors, silence) and slow, stopping or cancelled callers in virtual time; events, order, latency and release of streams checked", S + "The proxy is the documented one; transports themselves are simulated."),
"C19": ("simulated server parses, validates and executes every request of seeded calls under delays, losses and retries, and compares it with the operation written and the arguments given", S + "Arguments are encoded the documented way."),
"C20": ("simulated servers answer with seeded data (nulls, every member, unknown implementations) and are upgraded while calls are under way; every answer compared with what the caller can read", S + "Selections GraphQL would merge across fragments are a known finding and left out of the seeded documents."),
"C21": ("seeded histories and thread interleavings of generations in one simulated process, with interrupts and failures injected at seeded calls, compared with fresh-process runs", S + "Threads are switched at calls or lines of turms, not inside libraries."),
}
