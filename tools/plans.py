"""What each check runs: workloads of the harness, how many cases, which monitors decide."""
MEM = 'AddressSanitizer, UndefinedBehaviorSanitizer, allocation monitor (every block of a case released when it ends), descriptor monitor (every file closed, once), CPU watchdog'
ORACLE = 'reference model compared with the live objects; AddressSanitizer and UndefinedBehaviorSanitizer on the library; CPU watchdog'

def job(mode, quick, thorough, **kw):
    return dict(mode=mode, quick=quick, thorough=thorough, **kw)

PLANS = {
 'C01': dict(jobs=[job('fuzzdoc', 200000, 12000000, mem=True), job('parse', 10000, 300000, mem=True), job('malformed', 20000, 600000, mem=True), job('filemem', 1200, 40000, mem=True)],
   monitors=MEM, must_see=['fuzzdoc.accepted', 'fuzzdoc.rejected', 'fuzzdoc.file with short reads', 'fuzzdoc.babel', 'malformed.truncated', 'parse.documents', 'filemem.reads'],
   rule='generated documents mutated at byte and token level, token soup, random bytes, truncations; from memory, from files, with short and failing reads; non-trivial: more than three bytes'),
 'C02': dict(jobs=[job('malformed', 160000, 6000000)], monitors=ORACLE,
   must_see=['malformed.' + x for x in ('truncated', 'wrong_close', 'missing_close', 'stray_close', 'overlap', 'duplicate_attribute', 'unquoted_attribute', 'empty_name', 'second_declaration', 'bad_xml_space', 'text_before_root', 'bad_declaration', 'no_root', 'root_not_closed', 'broken_tag')],
   rule='random well-formed documents made ill-formed by one defect of a known class at a random place; each is a distinct document'),
 'C03': dict(jobs=[job('parse', 90000, 4000000), job('bigtext', 3000, 120000, flavour='cov', cpu=120), job('bigtext', 600, 24000, cpu=120), job('bigtree', 80, 3200, flavour='cov', cpu=120)], monitors=ORACLE, must_see=['bigtext.over_32767', 'bigtext.over_65535', 'bigtree.deep', 'bigtree.wide'] + ['parse.documents', 'parse.entry_strings', 'parse.entry_node', 'parse.entry_strlen'],
   rule='random documents in varied lexical form compared item by item with the tree they were written from; non-trivial: more than one element'),
 'C04': dict(jobs=[job('dump', 30000, 1200000), job('bigtext', 3000, 120000, flavour='cov', cpu=120), job('bigtext', 600, 24000, cpu=120)], monitors=ORACLE, must_see=['bigtext.over_32767', 'bigtext.dumps'] + ['dump.roundtrips', 'dump.pretty_roundtrips', 'dump.file_dumps', 'dump.full_device', 'dump.from_api', 'dump.from_text'],
   rule='random trees parsed or built through the API, dumped in every way and parsed again'),
 'C05': dict(jobs=[job('filemem', 11000, 500000), job('bigtext', 2000, 80000, flavour='cov', cpu=120), job('bigtext', 400, 16000, cpu=120)], monitors=ORACLE, must_see=['bigtext.over_32767', 'bigtext.files'] + ['filemem.trees_compared', 'filemem.rejections_compared', 'filemem.short_reads', 'filemem.aligned_on_boundary', 'filemem.read_errors', 'filemem.through_descriptor_0'],
   rule='random documents padded so that constructs straddle read blocks, read from file with whole and short reads and from memory'),
 'C06': dict(jobs=[job('escape', 300000, 12000000)], monitors=ORACLE, must_see=['escape.values_read_back'],
   rule='random contents rich in reserved characters and entity look-alikes, through every setter and accessor'),
 'C07': dict(jobs=[job('xmlspace', 250000, 8000000), job('bigtree', 160, 6400, flavour='cov', cpu=120)], monitors=ORACLE, must_see=['bigtree.deep'] + ['xmlspace.preserve_scopes', 'xmlspace.default_scopes', 'xmlspace.blank_text_kept'],
   rule='random documents with nested preserve and default scopes; non-trivial: at least one preserve scope'),
 'C08': dict(jobs=[job('edit', 40000, 1500000), job('bigtree', 160, 6400, flavour='cov', cpu=120)], monitors=ORACLE, must_see=['bigtree.wide', 'bigtree.over_255', 'bigtree.over_4095'] + ['edit.edits', 'edit.trees_compared', 'edit.transfers', 'edit.copies', 'edit.deattached', 'edit.reinserted', 'edit.item_moved'],
   rule='random histories of edit calls; the whole tree and all its links compared with the model after every edit'),
 'C09': dict(jobs=[job('copyeq', 160000, 6000000), job('bigtree', 120, 4800, flavour='cov', cpu=120), job('bigattrs', 120, 4800, flavour='cov', cpu=120)], monitors=ORACLE, must_see=['bigtree.wide', 'bigattrs.over_4095'] + ['copyeq.items_compared', 'copyeq.sharing_checked', 'copyeq.original_released', 'copyeq.zero_bytes'],
   rule='random trees copied in every way, single differences planted anywhere, one side changed or released'),
 'C10': dict(jobs=[job('attrs', 220000, 8000000), job('bigattrs', 400, 16000, flavour='cov', cpu=120), job('bigattrs', 24, 960, cpu=120)], monitors=ORACLE, must_see=['bigattrs.over_255', 'bigattrs.over_4095', 'bigattrs.over_32767'] + ['attrs.maps_compared', 'attrs.table_crossings', 'attrs.attr_ops'],
   rule='random histories of attribute calls on nodes with 0 to some 40 attributes, compared with a map after every call'),
 'C11': dict(jobs=[job('query', 170000, 7000000), job('query', 8000, 300000, mem=True), job('bigtree', 320, 12800, flavour='cov', cpu=120), job('bigtree', 16, 640, cpu=120)], monitors=ORACLE, must_see=['bigtree.wide', 'bigtree.over_255', 'bigtree.over_4095', 'bigtree.over_32767'] + ['query.lookups', 'query.iterations', 'query.removing_iterations', 'query.nodes_iterated'],
   rule='random trees with few distinct names; every lookup compared with a walk of the model'),
 'C12': dict(jobs=[job('hash', 120000, 4000000), job('hashfn', 60000, 1000000), job('hash', 20000, 400000, mem=True), job('bighash', 1200, 48000, flavour='cov', cpu=120), job('bighash', 64, 2560, cpu=120)], monitors=ORACLE + '; destruction accounting',
   must_see=['bighash.over_255', 'bighash.over_4095', 'bighash.over_32767', 'bighash.over_65535'] + ['hash.operations', 'hash.replacements', 'hash.deferred', 'hash.cursor_passes', 'hash.cursor_removals', 'hash.copies', 'hash.iterations', 'hash.destructions_checked', 'hash.constant', 'hash.mod 3', 'hash.high', 'hash.string', 'hash.int', 'hashfn.pairs'],
   rule='random histories over random hash functions, key kinds and growth steps; distinct: the history of calls, of more than three'),
 'C13': dict(jobs=[job('list', 400000, 12000000), job('list', 60000, 1500000, mem=True), job('biglist', 2400, 96000, flavour='cov', cpu=120), job('biglist', 200, 8000, cpu=120)], monitors=ORACLE + '; destruction accounting',
   must_see=['biglist.over_255', 'biglist.over_4095', 'biglist.over_32767', 'biglist.over_65535'] + ['list.operations', 'list.duplicates', 'list.cursor_removals', 'list.copies', 'list.lookups', 'list.lists_compared', 'list.ordered strings', 'list.pointers', 'list.appending', 'list.integers'],
   rule='random histories over every kind of list, the whole list compared after every call; distinct: the history, of more than three calls'),
 'C14': dict(jobs=[job('stack', 200000, 6000000), job('stack', 30000, 1000000, mem=True), job('bigstack', 4000, 160000, flavour='cov', cpu=120), job('bigstack', 200, 8000, cpu=120)], monitors=ORACLE + '; destruction accounting',
   must_see=['bigstack.over_255', 'bigstack.over_4095', 'bigstack.over_32767', 'bigstack.over_65535'] + ['stack.operations', 'stack.pops', 'stack.iterations', 'stack.binary_operations', 'stack.binary_pops'], rule='random push and pop histories; distinct: the history'),
 'C15': dict(jobs=[job('pool', 80000, 2500000), job('pool', 10000, 300000, mem=True)], monitors=ORACLE + '; contents of all pieces in use checked for change, addresses for overlap',
   must_see=['pool.pieces', 'pool.releases', 'pool.reused', 'pool.strings'], rule='random requests and releases of random sizes; distinct: the history'),
 'C16': dict(jobs=[job('strings', 160000, 5000000), job('strings', 30000, 800000, mem=True)], monitors=ORACLE + '; every string in a block of exactly its size',
   must_see=['strings.cases', 'strings.removals', 'strings.replacements', 'strings.splits'], rule='random strings of every byte, prefixes, case variants and separators through every string helper; distinct: the strings'),
 'C17': dict(jobs=[job('tokens', 40000, 1500000), job('tokens', 8000, 200000, mem=True)], monitors=ORACLE + '; a cursor over the text compared after every call',
   must_see=['tokens.' + x for x in ('inspected', 'not_matched', 'peeked', 'accepted', 'several', 'white_space', 'terminators_found', 'ends_found', 'terminators_missing', 'pushed', 'short_reads', 'files')], rule='random texts and histories of tokenizer calls, from memory and from files with whole and short reads; distinct: text and history'),
 'C18': dict(jobs=[job('dtd', 60000, 2500000), job('bigmodel', 320, 12800, flavour='cov', cpu=120), job('bigmodel', 64, 2560, cpu=120)], monitors=ORACLE + '; the content models run as sets of reachable positions', must_see=['bigmodel.children', 'bigmodel.elements', 'bigmodel.choice', 'bigmodel.over_255'] + ['dtd.dtds', 'dtd.valid', 'dtd.invalid', 'dtd.repeated'],
   rule='random deterministic content models, documents generated from them and changed by up to two edits; the verdict compared with the model; distinct: the DTD'),
 'C19': dict(jobs=[job('dtdattr', 60000, 2500000), job('bigdecl', 240, 9600, flavour='cov', cpu=120), job('bigdecl', 64, 2560, cpu=120)], monitors=ORACLE, must_see=['bigdecl.identifiers', 'bigdecl.values', 'bigdecl.attributes', 'bigdecl.over_255'] + ['dtdattr.' + x for x in ('dtds', 'valid', 'invalid', 'not declared', 'one of its values', 'missing', 'fixed value', 'repeated', 'to nothing', 'identifiers', 'references')],
   rule='random attribute declarations, documents that satisfy them or breach one; distinct: the DTD'),
 'C20': dict(jobs=[job('dtdinfo', 30000, 1200000), job('dtdinfo', 10000, 300000, mem=True), job('fuzzdtd', 20000, 600000), job('fuzzdtd', 60000, 3000000, mem=True)], monitors=ORACLE + '; ' + MEM, must_see=['dtdinfo.' + x for x in ('dtds', 'elements', 'entities', 'roots', 'files', 'differences', 'cut', 'wrong')] + ['fuzzdtd.accepted', 'fuzzdtd.rejected', 'fuzzdtd.files', 'fuzzdtd.validations', 'fuzzdtd.read_errors'],
   rule='random DTDs in varied lexical form compared declaration by declaration with what they were written from, single differences planted, cut and made wrong; mutated DTDs, token soup and random bytes'),
 'C21': dict(jobs=[job('ns', 100000, 4000000), job('ns', 15000, 400000, mem=True), job('bigns', 160, 6400, flavour='cov', cpu=120), job('bigns', 64, 2560, cpu=120)], monitors=ORACLE + '; allocation monitor', must_see=['bigns.over_255'] + ['ns.' + x for x in ('documents', 'valid', 'invalid', 'equal', 'different', 'found', 'not_found', 'siblings_found', 'searches', 'validated_twice')],
   rule='random trees with default and prefixed declarations placed and overridden anywhere, prefixes used with and without declaration; distinct: the document'),
 'C22': dict(jobs=[job('babel', 24000, 900000), job('babelother', 12000, 400000), job('babel', 3000, 60000, mem=True)], monitors=ORACLE + '; mapping tables of the standard',
   must_see=['babel.high_bytes', 'babel.undefined_bytes', 'babel.dumped', 'babel.short_reads', 'babelother.off', 'babelother.unknown_encoding'],
   rule='random documents written in each of the ten parts with bytes above 127 in names, values and text, from memory and from files with cut reads, around and over the size of a read block; each is a distinct document'),
 'C23': dict(jobs=[job('utf8gate', 40000, 1500000), job('utf8func', 300000, 12000000), job('fuzzbabel', 40000, 1500000), job('fuzzbabel', 8000, 200000, mem=True)], monitors=ORACLE + '; independent validator of RFC 3629',
   must_see=['utf8gate.valid', 'utf8gate.invalid', 'utf8gate.with_bom', 'utf8gate.short_reads', 'utf8func.valid', 'utf8func.invalid', 'fuzzbabel.accepted', 'fuzzbabel.rejected'],
   rule='random documents in UTF-8 rich in multi-byte characters, half of them with one wrong sequence at a random place; the public check on random strings'),
 'C24': dict(jobs=[job('threads', 2400, 90000, flavour='tsan', races=True, cpu=60), job('shared', 6000, 200000, flavour='tsan', races=True, cpu=60), job('threads', 800, 20000, races=True, cpu=60), job('shared', 800, 20000, races=True, cpu=60)],
   monitors='ThreadSanitizer on the library; the reference model of each workload, in every thread; answers of a twin document asked by one thread; AddressSanitizer and UndefinedBehaviorSanitizer',
   must_see=['threads.thread_steps', 'threads.with_extension', 'shared.thread_steps'],
   rule='mixes of two to five threads running one to four workloads each on objects of their own; or asking a shared document, hash, list and DTD; non-trivial: a mix, or a document, not seen before'),
 'C25': dict(jobs=[job('knife', 20000, 600000, knife=True, cpu=120)], monitors='the tool, built with AddressSanitizer and UndefinedBehaviorSanitizer, run as a process; its exit status, messages and files compared with the verdict of the library and with the model the file was written from',
   must_see=['knife.' + x for x in ('well_formed', 'truncated', 'malformed', 'mutated', 'pages_compared', 'html_rejected', 'to_file', 'headers_compared', 'dtd_rejected', 'excluded', 'operation_without_input', 'unknown_option', 'given_twice', 'value_missing', 'missing_input', 'newer_kept', 'older_written', 'unwritable', 'version', 'help')],
   rule='random documents and DTDs, whole, cut and mutated, through every operation and option of the tool in random order; misuse of options; outputs that cannot be written; distinct: the file'),
 'C26': dict(jobs=[job('edit', 12000, 500000, mem=True), job('attrs', 40000, 1500000, mem=True), job('copyeq', 35000, 1200000, mem=True), job('annot', 40000, 1500000, mem=True), job('pis', 60000, 2000000, mem=True), job('dump', 6000, 200000, mem=True), job('query', 20000, 800000, mem=True), job('hash', 8000, 300000, mem=True), job('list', 16000, 600000, mem=True), job('stack', 8000, 200000, mem=True), job('malformed', 8000, 300000, mem=True), job('parse', 3000, 100000, mem=True), job('dtd', 3000, 100000, mem=True), job('dtdinfo', 3000, 100000, mem=True), job('dtdattr', 4000, 150000, mem=True), job('ns', 3000, 100000, mem=True), job('nulls', 4000, 100000, mem=True), job('filemem', 600, 20000, mem=True), job('fuzzdtd', 6000, 200000, mem=True), job('fuzzbabel', 3000, 80000, mem=True)],
   monitors=MEM, must_see=['malformed.other_entries', 'edit.edits', 'attrs.attr_ops', 'copyeq.documents', 'annot.values_released', 'pis.instructions', 'dump.roundtrips', 'query.removing_iterations'],
   rule='random histories of calls over every object kind, all owned objects released at the end, every allocation followed'),
 'C27': dict(jobs=[job('steps', 480, 12000, flavour='cov', cpu=120), job('stepsapi', 480, 12000, flavour='cov', cpu=120)], monitors='count of the edges the library executes and of the bytes its memory and string calls handle, per call; no clock',
   must_see=['steps.' + x for x in ('growths_judged', 'wide', 'group', 'deep', 'attributes', 'prolog', 'long')] + ['stepsapi.' + x for x in ('growths_judged', 'hash', 'hash numbers', 'list', 'stack', 'pool', 'children', 'attributes', 'moving', 'strings', 'validation', 'decoding', 'namespaces')],
   rule='random shapes (what is repeated, nested or made long) at five sizes, each twice the one before; the work of every call is judged over each two doublings; distinct: the shape'),
 'C28': dict(jobs=[job('annot', 300000, 10000000), job('bigannot', 240, 9600, flavour='cov', cpu=120), job('bigannot', 64, 2560, cpu=120)], monitors=ORACLE, must_see=['bigannot.over_255', 'bigannot.over_4095'] + ['annot.annotations', 'annot.reads_found', 'annot.reads_inherited', 'annot.reads_missing', 'annot.values_released'],
   rule='random annotation histories over random trees compared with a map per node; destructions counted'),
 'C29': dict(jobs=[job('pis', 600000, 20000000), job('bigpis', 240, 9600, flavour='cov', cpu=120), job('bigpis', 64, 2560, cpu=120)], monitors=ORACLE, must_see=['bigpis.over_255', 'bigpis.over_4095'] + ['pis.instructions', 'pis.comments', 'pis.documents'],
   rule='random instructions and comments before, inside and after the root, from text and through the API'),
 'C30': dict(jobs=[job('log', 16000, 500000), job('errors', 120000, 3000000), job('log', 3000, 60000, mem=True), job('errors', 20000, 400000, mem=True)], monitors=ORACLE + '; the standard output and error are captured; the same workload with the log off and on, under the same oracle; allocation monitor',
   must_see=['log.cases_logged', 'log.log_bytes', 'errors.errors'] + ['log.' + x for x in ('parse', 'malformed', 'filemem', 'fuzzdoc', 'dump', 'edit', 'babel', 'utf8gate', 'dtd', 'dtdattr', 'dtdinfo', 'ns')],
   rule='a random case of a random workload with the log off, then on; errors of random codes and messages up to 20000 bytes; distinct: the seed of the case, the message'),
 'C31': dict(jobs=[job('nulls', 60000, 2000000), job('nulls', 8000, 200000, mem=True)], monitors='table of the value each operation returns for a missing reference; digest of all the objects at hand before and after; AddressSanitizer, UndefinedBehaviorSanitizer and allocation monitor',
   must_see=['nulls.refused'], rule='random sequences of up to 30 calls, each with one reference missing, over the 344 pairs of operation and argument; distinct: the sequence'),
 'C33': dict(jobs=[job('steady', 36000, 1500000)], monitors='bytes in use, as counted by the allocator of AddressSanitizer, after 10, 20, 40 and 80 repetitions of the same balanced work; AddressSanitizer, UndefinedBehaviorSanitizer',
   must_see=['steady.hash', 'steady.list', 'steady.stack', 'steady.pool', 'steady.tree', 'steady.edits', 'steady.questions', 'steady.readings'],
   rule='a random object brought to a random state and a random balanced sequence of operations on it, repeated 80 times; distinct: the state of the generator'),
 'C34': dict(jobs=[job('codec', 40000, 1500000), job('codec', 4000, 80000, mem=True)], monitors=ORACLE + '; handlers of the program that record the bytes they are given',
   must_see=['codec.decoded', 'codec.checked', 'codec.bare', 'codec.handler_fails', 'codec.wrong_bytes', 'codec.out_of_room', 'codec.no_room_at_all', 'codec.held_back', 'codec.short_reads', 'codec.dumped'],
   rule='random document, table of decoded strings, key, handlers, failures, way of delivery and cuts of its reads; distinct: the bytes of the document'),
 'C32': dict(jobs=[job('python', 3000, 150000, python=True, cpu=60)], monitors='the binding of py-axl run inside Python; a model in plain Python and an independent XML parser compared with everything a script sees; reference counts; bytes allocated while a case is repeated; AddressSanitizer and UndefinedBehaviorSanitizer on the binding and the library',
   must_see=['python.' + x for x in ('documents', 'created', 'trees', 'nodes', 'rejected', 'dumps', 'texts', 'validations', 'wrong_calls', 'kept_checked', 'cursors_kept', 'documents_kept', 'repeated', 'op_child', 'op_after', 'op_attr', 'op_content', 'op_replace', 'op_remove', 'op_move', 'op_tree', 'op_doc')],
   rule='random documents parsed from strings and files, documents and trees created by the script, histories of changes, references dropped in any order; wrong arguments; distinct: the document'),
}
