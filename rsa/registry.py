"""Properties with a check: module of the rule, technique and level."""

BASE = ['Python semantics as modelled by the interpreter in rsa/ (no monkey patching, no eval/exec).',
        'External operations do what the tables in rsa/effects.py and rsa/ext.py say.']

AI = 'path-sensitive abstract interpretation of the source (inter-procedural dataflow over the syntax tree)'
SYNC = ['The parts replaced by their specification (list reading, comparison, mapping, authority, state, web access) are '
        'decided by the properties about them.']

RULES = {}
# The properties a property rests on: its check decides them as well (the sync rules take those parts by their specification).
RESTS = {
    'C03': ('C08', 'C18', 'C20'),
    'C04': ('C10',),
    'C05': ('C25', 'C39'),
    'C06': ('C09',),
    'C07': ('C08',),
    'C11': ('C08', 'C18', 'C20'),
    'C12': ('C13',),
    'C17': ('C38',),
    'C18': ('C19',),
    'C43': ('C13', 'C20'),
}


def r(pid, module, technique, note, level='other', extra=(), parallel=False):
    RULES[pid] = {'module': module, 'level': level, 'assumptions': BASE + list(extra), 'parallel': parallel, 'rests': RESTS.get(pid, ()),
                  'technique': technique, 'note': note}


def sync(pid, technique, note, parallel=True):
    r(pid, 'sync_rules', AI + '; ' + technique, note, extra=SYNC, parallel=parallel)


LOOPS = ' All numbers of list entries are covered by a loop fixpoint over a generic entry.'
sync('C01', 'reachability of effect calls with dry run set',
     'Every effect call reachable from the sync entry points with dryrun=True on all abstract paths; none may be reached.' + LOOPS)
sync('C02', 'reachability of effect calls in audit, parse and explore',
     'Effect calls reachable from audit, parse_document and every explorer function on unknown inputs.' + LOOPS)
sync('C03', 'guard and provenance of every removal',
     'At each removing call the path condition must contain the deletion option, no dry run, and the class of the entry whose mapped path it is.' + LOOPS)
sync('C04', 'must-abort paths under no or unsafe mapping', 'All paths of both entry points with that configuration fact assumed.' + LOOPS)
sync('C05', 'must-abort paths for each kind of bad source list', 'All paths, one scenario per kind of failure.' + LOOPS)
sync('C06', 'must-abort paths with one entry outside the authority',
     'A generic witness entry outside the authority (for a correctly asked question); no change may be reachable.' + LOOPS)
sync('C07', 'provenance of paths and data at every effect call', 'Terms of every path and of the data written.' + LOOPS)
sync('C11', 'counting typestate of a witness entry', 'Downloads, stores and removals of a generic witness entry counted along all paths.' + LOOPS)
sync('C12', 'order facts about the recorded value and event order',
     'Recorded value is at least the time of a generic processed entry, free of local times, and recorded last.' + LOOPS)
sync('C14', 'typestate of downloads with failures injected at every operation',
     'Lists of up to four entries in all classes, every download operation may fail; totals are compared with completed stores.', parallel=False)
sync('C15', 'typestate of retries', 'One entry, 1 to 3 configured tries, every outcome of every attempt.', parallel=False)
sync('C16', 'typestate of the local copy and the form of the times set', 'All paths of a download of one entry per class.', parallel=False)
sync('C17', 'reachability of log calls under decided comparisons', 'One entry; each of length and digests differing or matching.', parallel=False)
sync('C43', 'provenance of applied entries through the pruning operations', 'Terms of all pruning arguments and applied entries.' + LOOPS)
sync('C45', 'typestate of file replacement with failures injected', 'Failures at every download operation; two-entry lists and generic lists.')

AS = 'abstract interpretation of the source over an abstract domain of strings (concatenations of constants and unknown pieces)'
r('C08', 'string_rules', AS, 'Unknown prefix and URI in each relation they can have (equal, continued at or not at a slash, diverging, shorter, climbing); lists of one to three maps.')
r('C09', 'string_rules', AS, 'Unknown scheme, host and path of master and query in each relation they can have, both modes.',
  extra=['urlparse splits a URL into scheme, host and path as documented.'])
r('C10', 'string_rules', AS, 'Unknown local paths in each relation, given as absolute, relative or file: spellings; sets of one to three maps.',
  extra=['os.path.abspath gives the absolute normalized path of a spelling; symbolic links are not resolved.'])

AD = 'abstract interpretation of the source under driver programs that build every abstract situation'
r('C18', 'list_rules', AD, 'All pairs of lists of up to three entries from ordered unknown URIs, every outcome of every comparison of two entries; storage classes mixed.', parallel=True)
r('C19', 'list_rules', AD + '; complete decision table over the path conditions', 'Every path of equal and == over all combinations of present, absent, equal and different attributes; times differing by unknown amounts around the tolerance.', parallel=True)
r('C20', 'list_rules', AD, 'All change lists of up to four entries over two or three URIs with every change type and every relation of times.', parallel=True)
r('C21', 'list_rules', AD, 'Every keyed class, every way of adding, duplicates at every position, equal and different from the entry before.', parallel=True)
r('C22', 'list_rules', AD, 'Lists of up to four entries in every order; nested, interleaved and repeated iterations.', parallel=True)
r('C23', 'list_rules', AD, 'Unknown and known change values through every way of setting them; lists with one bad entry at each place.')
r('C44', 'list_rules', AD, 'Up to three links with every coincidence of relations, all operations, five classes.')

AX = AD + ', over a model of the element tree'
r('C24', 'xml_rules', AX, 'Every attribute of an entry alone and all together, links, document metadata; names and values of the elements written compared with the specification; the same attributes read back.', parallel=True)
r('C25', 'xml_rules', AX, 'Forty ways an entry can be malformed at each of three positions in lists and indexes, through five readers; document metadata, links, roots and kinds.', parallel=True)
AY = AX + ' and of the file system'
r('C27', 'split_rules', AY, 'Every list class with up to five entries, limits one to six and none, in files and strings; every file that may fail to be written.', parallel=True)
r('C28', 'split_rules', AY, 'Indexes of up to three components of up to two entries at twelve kinds of places, in every order; every kind of unreadable component at every position.', parallel=True)
r('C29', 'doc_rules', AX, 'Every document class in every output form; every reader on every stated capability, and none.', parallel=True)
r('C30', 'doc_rules', AX, 'Every option of every document class with unknown and known values: the attribute and what is written.', parallel=True)
r('C31', 'doc_rules', AX, 'Every combination of version, add-lastmod option, last modification time and datetime in every output form and reader.', parallel=True)
r('C34', 'dump_rules', AY, 'Fourteen layouts of local files in every collection; every kind of unsuitable file at every position.',
  extra=['os.path functions on known paths follow POSIX; symbolic links are not resolved.'], parallel=True)
r('C35', 'dump_rules', AY, 'Up to six files in patterns of sizes around the limits, and up to four of unknown sizes with an unknown limit.', parallel=True)
r('C40', 'doc_rules', AX, 'Every link accessor of entries and documents, through writing and reading.', parallel=True)
LN = 'name resolution over the syntax trees of all modules and scripts'
r('C13', 'net_rules', AD, 'All histories of up to three updates for three sources and pairs of ten sources on five kinds of file; the record of file operations of each; failures to write.', parallel=True)
r('C37', 'disk_rules', AD, 'One tree of nested, empty and excluded directories under 13 sets of patterns, four mappings and five choices of start paths; all sets of links; all settings; all sets of vanished or unreadable files of four.', parallel=True)
r('C38', 'disk_rules', AD, 'All sets, orders and repetitions of the types over up to three files read in pieces; twelve unsupported names at every place; all texts of up to four entries; lists of up to three entries with all sets of digests.', parallel=True)
r('C41', 'time_rules', AD, 'str_to_datetime on every allowed form with symbolic offset and fraction, on malformed neighbours of each form, and datetime_to_str on nothing, now and a symbolic time, against a clock model.', parallel=True)
r('C39', 'find_rules', AD, 'Each kind of unreadable, misleading and good page at each of the five places and at each step from a place to a list, with the others there or not; all pairs of descriptions and all triples of lists of six kinds; three bases.', parallel=True)
r('C36', 'cli_rules', AD, 'main of the three programs, up to the call of the operation: every mode with every option, spelling and pair of options (quick) or triple (thorough), all options together; no mode, pairs of modes and unacceptable values.',
  extra=['argparse behaves as documented (a model of it is analysed with the programs); abbreviated options are not covered.'], parallel=True)
r('C33', 'write_rules', AD, 'The record of opening, closing, measuring, hashing and renaming of every list class in every form of writing, dumps of up to three archives, the state file, stored downloads, and each operation of the client from start to end over small sources and directories.',
  extra=['WARC dumps are not covered (the library is optional).'], parallel=True)
r('C26', 'lint_rules', LN, 'Every reference to a library in every module and script, through every import and simple alias; flags and parsers passed to the hardened parser.',
  extra=['defusedxml refuses entities and external references unless told otherwise.'])
r('C32', 'net_rules', AD + ' (histories of requests); ' + LN + ' (who may open)', 'Histories of up to four requests, with token and delay set, changed and removed; every reference to something that opens connections.', parallel=True)
r('C42', 'lint_rules', LN + ', with attribute sets and signatures of all classes and functions', 'Every name, every attribute and every resolvable call of every module and script, except under hasattr or a handler for its failure.',
  extra=['Attributes of values of unknown types are only required to exist somewhere.'])

NOT_APPLICABLE = {
    'N01': 'equality of all runtime values through two formatting and parsing layers; the static part (which attributes are written and read under which names) is C24, C31, C40 and C41',
    'N02': 'depends on the contents and times of files and on the file system at run time; its static ingredients are C11, C16 and C18',
    'N03': 'a matter of schedules of two processes; the code has no locking to decide about, the single-process part is C13',
    'N04': 'rounding of floating point numbers and decimal formatting for all timestamps; no sound static argument in reach bounds it',
    'N05': 'the sum of file sizes at run time; the code only checks the limit after adding a file, and the partitioning rule is C35',
}
