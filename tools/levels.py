AI = "abstract interpretation of the clang AST (path-partitioned value numbering with a difference-bound domain)"
CHECKS = {
 "P01": (AI + "; the effect of every path of the line parser compared with the documented grammar, letter by letter", "every accepted path of the line parser, for lines of any content; strtoX and strchr by their documented contracts"),
 "P02": (AI + "; effects of the paths of both line parsers that return an error", "every path of both line parsers, for lines of any content"),
 "P06": (AI + "; the effect of every path of the statsd line parser compared with the documented grammar", "every accepted path of the statsd parser, for lines of any content; the number of repetitions compared as a term"),
 "P03": (AI + "; cursor and delimiter positions of the line loop, counters identified by name", "every path of one iteration of the line loop of both protocols, for datagrams of any content and any outcome of the line; wiring by the constructor arguments of the servers"),
 "P07": (AI + "; a strictly monotone, bounded cursor or index as the witness of every loop", "every loop of the text entries and line parsers for lines of any content, and of every function they reach; number of iterations, not cost of library calls"),
 "P04": (AI + "; cursor positions relative to the line's terminator, with inductive loop hypotheses", "every path of the four text entries, lines and datagrams of any length and content; strtoX/strlen/find by their documented contracts"),
 "P11": (AI, "all paths of the collection's methods and of every table instantiation; table container trusted"),
 "P12": (AI, "all paths of every meter method and of both table loops; clock and container trusted"),
 "P14": (AI + "; event-order rules on atomics", "every atomic operation of every meter method on every path; per-cell atomicity discipline, not full linearizability"),
 "P15": (AI + "; transfer functions compared with the specified ones", "real arithmetic for doubles (tolerance 1e-9), integers assumed not to overflow unless multiplied"),
 "P23": (AI + "; conditions on the request decided over a finite partition of all texts", "every method, URI and host; every body up to the JSON library's own behaviour; every path of the deletions down to the tables"),
 "P24": (AI + "; conditions on the request decided over a finite partition of all texts", "every path of the request handler and every iteration of its loops"),
 "P33": (AI + "; flags as symbols, the configuration compared with the documented precedence per combination", "every combination of flags, every list of common tags, every integer for a port"),
 "P28": ("ownership and escape analysis over the typed syntax tree (types of fields and results, owners of temporaries, lock scopes)", "every field, function result, local and critical section of the repository; what a lambda captures is P13's and P19's"),
 "P25": (AI + "; conditions implying the flag, parameters and missing guards turned into obligations on callers", "every function that updates one of the daemon's own meters, every path and loop iteration"),
 "P26": (AI + "; flag, mutex and notification order matched against every wait of the thread", "every path of the starting, stopping and destroying functions and of the thread functions"),
 "P27": ("interval analysis with adaptive partition of the 64-bit argument; constant-table comparison; " + AI + " for the meters", "every 64-bit amount, every table entry, every path of both Record methods"),
 "P17": ("bit-provenance abstract interpretation with adaptive partition of the input; comparison with the Smile grammar", "every integer up to 2^31-1, every double bit pattern, every string length up to 2^40"),
 "P08": (AI + "; queries over the whole program for constructors, table mutations and the pool's lifetime", "every table entry, every path of Intern, every construction of a reference in the program; container semantics trusted"),
 "P09": (AI + " over symbolic segments of the contents; ownership typestate of the storage", "every member function from every representation, every size (symbolic), as an inductive invariant over all histories"),
 "P05": (AI + " of the receive and of its completion handler", "every error and every length a receive can complete with; every length a read can return"),
 "P32": (AI + "; row format as symbolic columns; typestate of files", "every path and every row, for arbitrary file contents"),
 "P31": (AI + "; typestate of the stream", "every path of every function that drives zlib; zlib itself modelled by its documentation; buffers below 4 GiB"),
 "P13": ("interprocedural lockset, lock-order and escape analysis over the typed syntax tree", "every function body; every access to annotated or listed state, every nested acquisition, every blocking call; one lock per object path"),
 "P10": (AI + "; origin of the returned pointer among the table's accesses", "every path of every lookup, any history of the table; the hash table's insert-if-absent trusted"),
 "P16": (AI + "; the operation written for a measurement compared with the specified table", "every path of the payload writer; every statistic"),
 "P18": (AI + "; loop summaries of the payload writer and symbolic counting", "every batch, every tag set, every path of one measurement; the hash table's iteration order trusted to be stable"),
 "P19": (AI + "; the splitting and posting loops summarised, each task interpreted from its posted closure", "every number of measurements, batch size and worker count, every path of a task; the thread pool's own queue trusted"),
 "P20": (AI + "; JSON tests as conditions, accesses as obligations, statuses by interval enumeration", "every status, every JSON body, every path of the handler; rapidjson's own code trusted"),
 "P21": (AI + "; one attempt per path or loop iteration, statuses, transport results and attempt numbers by evaluation of the path's conditions over their ranges", "every path of an attempt; statuses 0..999, transport results 0..99, attempt numbers 0..7; libcurl trusted"),
 "P22": (AI + "; TLS options in force at each send, syntax rule for pointers libcurl keeps", "every path up to every send; libcurl and the deployed verifier trusted"),
 "P29": (AI + "; comparison and insertion matched per critical section", "every path of every registry method that can register an age gauge"),
 "P30": (AI + "; loop summary of the tags taken over, plus the lockset analysis of every access to them", "every path of the registry methods on the common tags and of the publishing cycle, at each post"),
 "P34": (AI + "; positions of searches as symbolic offsets", "every path, every text; the facts of std::find and string_view::find are modelled"),
 "P35": (AI + "; constructed listeners matched against the settings under the path's conditions, handlers interpreted, scope ends as events", "every path of the server's Start and of the listeners' constructors"),
 "P36": (AI + "; last value of each libcurl option at the request, callbacks interpreted, arguments handed over compared with the caller's", "every path of every HttpClient method that sends, its callbacks, and of the publisher's client configuration"),
}
NA = {
 "N01": "a numerical error bound over all multisets of values; no sound static argument in reach bounds the interpolation error",
 "N02": "needs the semantics of zlib's deflate, which is a binary library here; the call discipline around it is P31",
 "N03": "real-time behaviour (durations of runs and waits), which no source analysis bounds",
 "N04": "an ordering property of whole concurrent histories; the per-access discipline it rests on is decided under P13 and P14",
}
