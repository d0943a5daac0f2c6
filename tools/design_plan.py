"""Oracle and reach of each property's check, for DESIGN.md."""
PLAN = {
    'C01': ('no effect event on any path on which the dry-run fact holds; the control run without the fact must reach effects.',
            'all entry points, branches and numbers of entries at once, including error paths.'),
    'C02': ('no effect event and no state or resource download event at all.', 'every explorer command and every document, not the sampled ones.'),
    'C03': ('each removal event is preceded on its path by the tests "deletion on", "not dry run", and its path term is mapper(uri of an entry of the deleted class).',
            'holds for every list pair and history; tests sample one pair.'),
    'C04': ('every path ends in the fatal error type, and no download, change or record event precedes it.', 'all positions at which mapping could be consulted too late.'),
    'C05': ('every path ends in a client error without an event.', 'each kind of bad list at each reading step.'),
    'C06': ('no event is reachable once the witness outside the authority is in the list; the question asked must name the list URI and the chosen strictness.',
            'any position and any number of entries.'),
    'C07': ('path term = mapping of the URI of the entry in hand (or an allowed neighbour); data term = content of that URI.', 'all data flow paths, including through helper variables and caches.'),
    'C08': ('a decision table computed from the specification for each relation of prefix and URI.', 'all strings in each relation, not sample URIs.'),
    'C09': ('a decision table of scheme, host and path relations in both modes.', 'all hosts and paths in each relation.'),
    'C10': ('equal or nested absolute paths, any map of the set.', 'all spellings and positions in the set.'),
    'C11': ('the count of actions of the witness is exactly one and of the kind its class or change type names.', 'lists of any length, witness at any position.'),
    'C12': ('order facts entail recorded >= time of every processed entry and = one of them or the initial value; recording is the last event.', 'all orders of times and all numbers of entries.'),
    'C13': ('the content of the file at the end of each history (a model of the configuration format), and "old or new" at each operation.', 'crash points at every file operation and sources in every relation.'),
    'C14': ('number of completed stores of the path = total returned; failure ends in error or in zero with a warning.', 'a failure at every operation of every entry.'),
    'C15': ('number of attempts and outcome for each sequence of outcomes; timeout and file mode of each attempt.', 'all sequences of outcomes.'),
    'C16': ('last time-setting event of the path is after close, with the whole seconds of the source time.', 'all paths through storing.'),
    'C17': ('a log event of the right kind is present exactly when the comparison of like with like differs.', 'all combinations of digests and lengths.'),
    'C18': ('merge of two ordered lists by specification.', 'all list pairs within the bound with unknown, merely ordered URIs.'),
    'C19': ('complete truth table over the attributes.', 'complete for the function, with times as symbolic differences.'),
    'C20': ('list operations by specification on each list of changes.', 'all sequences within the bound and all time relations.'),
    'C21': ('set semantics with error or replacement.', 'all classes and positions of the duplicate.'),
    'C22': ('sorted order / order of addition; independent iterator positions.', 'all interleavings of two iterations.'),
    'C23': ('the four allowed values; refusal elsewhere; originals unchanged.', 'every way of setting, unknown value.'),
    'C24': ('table of element and attribute names of the specification, both ways.', 'unknown values for every attribute.'),
    'C25': ('each malformed form must end in the sitemap error.', 'every form at every position and reader.'),
    'C26': ('the resolved callee of every parsing reference is in the hardened package, with its guards on.', 'all call sites, including unexecuted ones.'),
    'C27': ('concatenation of parts = list; sizes; index entries by URI, digest and time; order of events.', 'all sizes and limits in bound, all failure points.'),
    'C28': ('set of resources read and list of reads; error for each unreadable component.', 'all kinds of place and failure positions.'),
    'C29': ('capability written in each form and verdict of each reader.', 'the full cross table of classes.'),
    'C30': ('attribute and output of each option.', 'every option, alone and together, unknown values.'),
    'C31': ('lastmod and datetime by the table of version and option.', 'the full table with symbolic times.'),
    'C32': ('headers, delay and timeout of each request in a history; opener only in the gateway.', 'all histories within the bound and all call sites.'),
    'C33': ('every handle opened for writing is closed before measuring, hashing, renaming and return.', 'all paths of all writers.'),
    'C34': ('archive members = manifest paths, content file per member, no climbing, checks before writing.', 'all layouts in bound.'),
    'C35': ('greedy partition by specification.', 'symbolic sizes against a symbolic limit.'),
    'C36': ('client attributes and arguments of the operation called, from the documented option table.', 'all modes with all pairs or triples of options.'),
    'C37': ('the set of files by specification, per-file attributes.', 'all combinations of patterns, links, settings and failures.'),
    'C38': ('algorithm, attribute and prefix of each type in each use.', 'all subsets and orders of types.'),
    'C39': ('sequence of URIs asked and outcome, from the documented order.', 'every failure kind at every step.'),
    'C40': ('element sequence of the model document.', 'all classes and accessors.'),
    'C41': ('offset and fraction arithmetic on symbolic digits; refusals.', 'all digit values of each form.'),
    'C42': ('every resolved name, attribute and signature exists.', 'code no test executes.'),
    'C43': ('provenance of the applied entries passes both pruning operations, with the start term and version.', 'all lists and both versions.'),
    'C44': ('list operations on links by specification.', 'all coincidences of relations.'),
    'C45': ('the old file is replaced only by a completed temporary one, on every path with a failure.', 'a failure at every operation.'),
}
