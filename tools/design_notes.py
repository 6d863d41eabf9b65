NOTES = {
"C01": "The loop of `RuleSet.match` against an arbitrary ordered rule set: ghost sum and ghost result list as invariants. Rules are opaque: `rule.match` and `rule.score` are functions of rule and message, may raise any Exception, and may raise the stop signal.",
"C02": "Verdict, score, threshold and length of every reply; the property is a postcondition of each command handler (the pieces yielded, in order, as one text) and of the verdict functions they share. Length is stated in bytes of the encoded body.",
"C03": "Decided by the constructor and `preprocess` of the base rule for every list length, flag set and mode. Score lists of one and of four entries and every other length are separate cases.",
"C04": "Registration, lookup, enabling test and removal as contracts over the two dictionaries, including that no other entry changes; the order by priority is the sorting step of the parser (contract of C12 plus the finder).",
"C05": "The wrapper put around a rule, its `__call__` and the plugin's wrapping loop. Together with C01's contract (stop ends the evaluation, adds nothing by itself) this gives the property.",
"C06": "Every view is a function of the header list; matching is `exists value: search(value)`, proved with an invariant over the values before. The regular expression engine is a predicate of pattern and text. Parsing of the rule line decides view and pattern.",
"C07": "As C06 for the other views; the eval machinery (binding, arguments, failure means no match) has contracts of its own. Reading the argument list (Python literals) is by the finder.",
"C08": "One contract for the whole walk with the three ghost predicates trusted/internal/msa-passed defined by recursion over the hops; each list is specified element by element. The text of Received headers is read by the finder (bounded).",
"C09": "First containing entry decides: invariant over the entries before. Parsing of an entry (text to network) is a function of the text, its assembling (mask, missing parts) is proved.",
"C10": "One contract per kind of option and one for the dispatch over the option table, for any table entry of that kind.",
"C11": "Freshness: every container reachable from a new configuration is allocated in the call, defaults are copies, the class-level and module-level state is unchanged; option setters write only to this configuration. The whole-process form (load A, load B, compare) is the finder's. Known finding: the class attributes of the subject white list.",
"C12": "The line handler with the stack of open conditions as ghost state, the file loop, the include step, the final loop that builds rules.",
"C13": "The reader against the byte sequence sent (chunks are an arbitrary split of it); options by the lines. Sockets and threads are the finder's (real loopback connections, in process).",
"C14": "Trace equality: exactly the specified report/revoke calls with exactly the targets; the plugin chain is C23's contract.",
"C15": "The per-user cache as a map from user to rule set; the fresh rule set is one built from the main configuration and that user's file. Locks: the functions run as one call; concurrent requests are tried by the finder only.",
"C16": "`restricted` by induction over the labels of the name (the recursion is an uninterpreted function with its defining equations, listed as an assumption); the query wrapper by trace; every exception class of the resolver's package is an answer without records.",
"C17": "List search with patterns as opaque predicates, and the small state machine of the sender whitelist as functions of the address list (ghost sums over positions).",
"C18": "Ghost sums of points over the matching rules; the decision as one formula of the stored points and thresholds; the hook by trace of the Bayes calls.",
"C19": "The totals after a message and the adjusted score as formulas over reals; the table is a map from the four-part key; MySQL statements are read from their text by a small SQL model which insists on the full key in the condition; SQLAlchemy's query is modelled by the set of its conditions.",
"C22": "The three loops (removals, additions, verdict-specific ones) as traces of changes to the message; tag replacement as a function from tag to text; the reply's header block.",
"C23": "The chain loop for each hook with the position of the first stop as ghost; the data dictionary as a map from (plugin, key); unloading by frame conditions.",
"C25": "Thresholds as inequalities over reals, for each kind of bound (numbers, quoted numbers, absent). Counting loops are specified by ghost counts.",
"C27": "A decision chain over the first or last elements of arbitrary hop lists; address lists by order of the fixed headers.",
"C28": "The expression translator is a bounded stand-in (below); under contract are the evaluation of a meta rule and the depth-limited loading.",
"C20": "Numeric part: the token probability and the combiner as formulas over reals (bounds proved by nonlinear real arithmetic), the history part as contracts over the store.",
"C21": "Frame conditions: a check leaves everything that outlives the message as it was.",
"C24": "Existence over the tested addresses with DNS answers as functions of the queried name.",
"C26": "Existence over servers with the replies as functions of server and digest.",
}
