"""The registry: which harness modes decide which property, and how much of each."""
import os, subprocess, sys
import build, runner

def make_jobs(spec, tier, scale=1.0):
    jobs, pairs = [], []
    for j in spec['jobs']:
        k = (j.get('flavor', 'asan'), j['h'])
        if not k[0].startswith('rb') and k not in pairs:
            pairs.append(k)
    exes = build.build_many(pairs)
    for j in spec['jobs']:
        flavor = j.get('flavor', 'asan')
        k = (flavor, j['h'])
        wrapper, env = j.get('wrapper'), dict(j.get('env') or {})
        if flavor.startswith('rb'):
            wrapper, e = build.ruby_command(flavor)
            env = dict(e, **env)
            exes[k] = os.path.join(build.RB, j['h'] + '.rb')
        n = j['quick'] if tier == 'quick' else j.get('thorough', j['quick'] * 20)
        n = max(1, int(n * scale))
        jobs.append(runner.Job(exes[k], j['mode'], n, env=env, wrapper=wrapper,
                               chunk=j.get('chunk'), tag=j.get('tag', j['mode']),
                               case_timeout=j.get('timeout', 60)))
    return jobs

def replay(job, case, a):
    import tempfile, shutil
    d = runner.scratch_root()
    try:
        rc, err, st, done, v = runner.run_proc(job, case, case + 1, a.seed, a.tier, d, os.path.join(d, 'out'), verbose=True)
        print(err)
        for x in v:
            print(x['key'], x['msg'])
        print('rc', rc)
        return 1 if v or rc != 0 else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

PROPS = {}
NOT_APPLICABLE = {}

MODEL_NOTE = ('Held on the executions counted in the evidence: the real code, under AddressSanitizer, on seeded random '
              'workloads, every observable compared with an independent model. Assumes the model and the generator '
              'cover the behaviour a change could break; says nothing about paths no workload reached.')

PROPS['C22'] = dict(level='exploration', technique='model-based runtime monitor under ASan',
    note=MODEL_NOTE, jobs=[
    dict(h='h_cont', mode='hash', quick=6000), dict(h='h_cont', mode='hashset', quick=4000),
    dict(h='h_cont', mode='bitvector', quick=6000), dict(h='h_cont', mode='pq', quick=4000),
    dict(h='h_cont', mode='array', quick=4000), dict(h='h_cont', mode='mempool', quick=3000),
    dict(h='h_cont', mode='multimapper', quick=6000)],
    rule='a case is one random operation sequence on one container type, every result compared with a '
         'std:: model after every step; non-trivial when the container grew past its initial capacity or '
         'an element was removed and re-inserted; distinct by the hash of the operation sequence')

INDEX_RULE = ('a case is one random index history (schema, configuration, documents, deletions, commits, reader sessions, '
              'merges, reopening) and a comparison of everything a reader reports with a model fed the same operations; '
              'non-trivial when %s; distinct by the hash of the operation log')
def _idx(pid, mode, quick, nt, extra=(), tech='model-based runtime monitor under ASan', h='h_index', timeout=60):
    PROPS[pid] = dict(level='exploration', technique=tech, note=MODEL_NOTE,
                      jobs=[dict(h=h, mode=mode, quick=quick, timeout=timeout)] + list(extra), rule=INDEX_RULE % nt)
_idx('C01', 'stored', 1000, 'stored values were read back from more than one document')
_idx('C02', 'postings', 1000, 'several terms were enumerated over several segments or skips')
_idx('C03', 'vectors', 1000, 'term vectors were read back')
_idx('C04', 'deletes', 1000, 'documents were deleted and the index was compared afterwards')
_idx('C05', 'settings', 200, 'the same history under different settings gave more than one segment layout', h='h_index2')
_idx('C13', 'snapshots', 300, 'a reader was held open over later changes', h='h_index2')
_idx('C19', 'combine', 600, 'two or more indexes with live documents were combined', h='h_index2',
     extra=[dict(h='h_index2', mode='msea_known', quick=1, thorough=1), dict(h='h_index2', mode='addidx_known', quick=1, thorough=1), dict(h='h_index2', mode='msea_byte_known', quick=1, thorough=1)])
_idx('C20', 'norms', 1000, 'norms were written and read back')

FS_NOTE = ('Held on the executions counted in the evidence: the real code with every file-system call on the index directory '
           'intercepted at link time. Crashes are process deaths: the recorded calls up to a point, the last one possibly '
           'half done, are replayed into a fresh directory; calls the kernel accepted are taken as done (no power loss, no reordering). ')
PROPS['C14'] = dict(level='exploration', technique='runtime monitoring: recorded file-system call log, crash-point replay, state oracle, under ASan',
    note=FS_NOTE, jobs=[dict(h='h_crash', mode='crash', quick=90, thorough=3000, timeout=120)],
    rule='a case is one random history on a file-system index, its recorded calls, and a sample of points (including inside writes, and '
         'crashes of the recovery itself) at which the directory is rebuilt, opened, read completely and compared with the states allowed at '
         'that point; then a new writer goes on and is compared too. Non-trivial when more than one commit and 20 calls were recorded; distinct by the hash of the crash states')
PROPS['C15'] = dict(level='exploration', technique='runtime monitoring: fault injection at the system-call boundary with a state oracle, under ASan',
    note=FS_NOTE, jobs=[dict(h='h_crash', mode='faults', quick=450, thorough=20000, timeout=25)],
    rule='a case is one random history and up to 14 runs of it, each with one call failing (once, or with all later changes, space-needing calls, '
         'or calls failing too); the operation must report an error or succeed, nothing may crash or hang, the directory must hold a state allowed '
         'by what was reported, the same reader must go on after a passing fault, and a new writer must work afterwards. Non-trivial when more than two faults fired; distinct by the failing calls')
PROPS['C16'] = dict(level='exploration', technique='runtime monitoring: lock-holder state machine, multi-process contention with a shared-memory overlap detector',
    note='Held on the executions counted in the evidence, with real processes on a real directory. Interleavings are those the scheduler and random delays produced.',
    jobs=[dict(h='h_lock', mode='locks', quick=6000, thorough=100000), dict(h='h_lock', mode='objects', quick=3000, thorough=60000), dict(h='h_lock', mode='failed_open', quick=3000, thorough=40000), dict(h='h_lock', mode='contend', quick=1500, thorough=40000)],
    rule='a case is either one random sequence of opening, changing, committing and closing writers, readers and stores of one index, probed from another process, '
         'checked after every step against who must hold the lock; or the same for several lock objects on a few names, cleared now and then; or several processes racing for the lock, with an overlap counter in shared memory and the documents '
         'counted at the end. Non-trivial when the lock was taken more than once and somebody was refused; distinct by the operations')
PROPS['C17'] = dict(level='exploration', technique='runtime monitoring: directory and descriptor monitor with a necessity oracle, under ASan',
    note=FS_NOTE, jobs=[dict(h='h_crash', mode='files', quick=2500, thorough=60000)],
    rule='a case is one random history in a directory with other files in it, sometimes starting from what a crash or a fault left; whenever everything is closed, each file of '
         'the index is left out in turn: the index must then not read as before, or the file was left over. Foreign files must be untouched, no descriptor or lock left. '
         'Non-trivial when something was committed or cleaned up; distinct by the operations')

PROPS['C18'] = dict(level='exploration', technique='runtime monitoring: lock-step model of names and bytes over disk, memory and compound stores, under ASan',
    note=MODEL_NOTE, jobs=[dict(h='h_store', mode='store', quick=14000, thorough=400000), dict(h='h_store', mode='rambuf', quick=6000, thorough=100000)],
    rule='a case is one random history of creating, writing (all value kinds, seeks back), closing, opening, cloning, seeking, reading, renaming, touching, removing and '
         'listing files, on disk and in memory in lock step, with compound files built from some of them; every value read, position, length, listing and error is '
         'compared with the map. Non-trivial when a written value was read back; distinct by the numbers of values written, read and ends of file met')
PROPS['C28'] = dict(level='exploration', technique='runtime monitoring: event trace of random programs of protected blocks against an interpreter of their meaning, under ASan and TSan',
    note='Held on the programs counted in the evidence, run with the real macros and the real context stack, in one thread and in several at once. '
         'Programs use at most four levels and four codes.',
    jobs=[dict(h='h_misc', mode='except', quick=120000, thorough=3000000), dict(h='h_misc', mode='except_threads', quick=1000, thorough=30000),
          dict(h='h_misc', mode='except_threads', flavor='tsan', quick=300, thorough=5000, tag='except_threads_tsan')],
    rule='a case is one random program (or several, one per thread) of nested protected blocks of all three forms, with raises in bodies, handlers and cleanup sections, '
         'and its trace of bodies, handlers, cleanups and final code, compared event by event. Non-trivial when something is raised; distinct by the program')

def _thr(mode, ts, a): return [dict(h='h_thread', mode=mode, flavor='tsan', quick=ts, thorough=ts * 30, tag=mode + '_tsan', chunk=25), dict(h='h_thread', mode=mode, quick=a, thorough=a * 30)]
PROPS['C21'] = dict(level='exploration', technique='runtime monitoring: ThreadSanitizer and ASan on random schedules, with a linearizability checker over recorded call histories and snapshot bounds',
    note='Held on the schedules counted in the evidence: real threads of the real library with random pauses. A reader and searcher shared by threads is shared for searching and reading; '
         'changes are made through the shared index object, the shared writer, or under the write lock.',
    jobs=_thr('thr_index', 400, 2500) + _thr('thr_write', 250, 500) + _thr('thr_read', 500, 800) + _thr('thr_separate', 400, 1000) + _thr('thr_error', 400, 1500) + _thr('thr_lock', 200, 400),
    rule='a case starts two to seven threads at once on: one index object (every call recorded with its times; some order of the calls that respects real time must explain all results, found '
         'by exhaustive search over the model), one writer with threads opening snapshots meanwhile (each must show every thread after a number of its updates between those a finished commit '
         'covers and those begun), one reader and searcher (all results as one thread alone gets), separate indexes, one another error after another, or writers that the lock must keep apart. '
         'Non-trivial when calls overlapped (index) or were refused by the lock (lock); distinct by the results recorded')

SEARCH_RULE = ('a case is one random corpus (several segments, deletions, field and document boosts) and a dozen or more random '
               'queries; %s; non-trivial when a query matched some but not all live documents; distinct by the hash of the '
               'queries and their expected matches')
MATCH_RULE = SEARCH_RULE % ('each query runs through search, search_each, search_unscored from several offsets, the weight forms, '
    'as a filter and as a constant score query, and again after the index changed, and every result is compared with a definition '
    'evaluated on the documents')
def _sea(pid, jobs, rule, tech='model-based runtime monitor under ASan'):
    PROPS[pid] = dict(level='exploration', technique=tech, note=MODEL_NOTE, jobs=jobs, rule=rule)
_sea('C06', [dict(h='h_search', mode='match', quick=2400), dict(h='h_search', mode='sloppy_known', quick=1, thorough=1)], MATCH_RULE)
_sea('C07', [dict(h='h_search', mode='terms', quick=2400)], MATCH_RULE)
_sea('C08', [dict(h='h_search', mode='spans', quick=2400)], MATCH_RULE)
_sea('C09', [dict(h='h_search', mode='scores', quick=2500), dict(h='h_search', mode='omitnorms_known', quick=1, thorough=1)],
     SEARCH_RULE % ('the score of every hit is compared with the formula evaluated on the documents, with explain (whose nodes must add up) '
                    'and with the score through every other entry point'))
_sea('C10', [dict(h='h_search', mode='hits', quick=3000)],
     SEARCH_RULE % ('each search runs with random sorts, filters, offsets and limits; total count, page contents, order and sort values are '
                    'compared with the full ordered list of matches'))
_sea('C23', [dict(h='h_search', mode='highlight', quick=4000)],
     SEARCH_RULE % ('each highlight call is checked for text fidelity, excerpt order and count, and for marks exactly on the merged matches'))
_sea('C11', [dict(h='h_parse', mode='parse', quick=2200), dict(h='h_parse', mode='parse_any', quick=4000), dict(h='h_parse', mode='clean_known', quick=1, thorough=1)],
     'a case is a parser configuration, a random corpus and several dozen query texts: either written from a random meaning (in the documented '
     'syntax) and judged by hits and scores against that meaning, or noise, mutations and cut-offs of such texts judged by the contract (a query or a '
     'parse error, never a crash; the same text gives the same query from a used and a new parser); non-trivial when a text with a meaning '
     'matched some but not all documents, or noise was both parsed and refused; distinct by the hash of the texts')
_sea('C12', [dict(h='h_analysis', mode='tokens', quick=6000), dict(h='h_analysis', mode='analyzers', quick=5000),
             dict(h='h_analysis', mode='standard', quick=6000), dict(h='h_analysis', mode='stems', quick=500),
             dict(h='h_rb_text', mode='rb_tokens', flavor='rb', quick=3000, thorough=60000), dict(h='h_rb_text', mode='rb_analyzers', flavor='rb', quick=2500, thorough=60000),
             dict(h='h_rb_text', mode='rb_tokens', flavor='rb_asan', quick=400, thorough=8000, tag='rb_tokens_asan'),
             dict(h='h_rb_text', mode='rb_analyzers', flavor='rb_asan', quick=300, thorough=8000, tag='rb_analyzers_asan')],
     'a case is a tokenizer under a random chain of filters (or several analyzers, per-field ones included, with several streams open at once) and '
     'texts of noise, invalid and multi-byte characters, long runs and syntax fragments, in two locales; the tokens are compared with the definitions '
     '(whitespace, letter, keyword tokenizers; all filters), the standard tokenizers with the documented token kinds, and every token with the '
     'well-formedness rules, also after partial use, reset and clone; non-trivial when more than one token was expected; distinct by the hash of the texts')

RB_NOTE = ('Held on the executions counted in the evidence, through the Ruby extension built from the tree with the project\'s own rake build. '
           'Nothing is claimed for inputs the generators do not produce.')
PROPS['C25'] = dict(level='exploration', technique='model-based runtime monitor over random histories in Ruby, plain and under ASan', note=RB_NOTE,
    jobs=[dict(h='h_rb_index', mode='rb_index', flavor='rb', quick=3000, thorough=60000),
          dict(h='h_rb_index', mode='rb_index', flavor='rb_asan', quick=500, thorough=8000, tag='rb_index_asan')],
    rule='a case is one Index (random key, id field, auto_flush, field and storage settings) and a random history of its operations; after each, size, '
         'documents by number, by key and by query, searches and other readers are compared with the list model. Non-trivial when a document was replaced or deleted; '
         'distinct by the settings and operations')
PROPS['C27'] = dict(level='exploration', technique='runtime monitor: order and round-trip oracle over generated numbers and dates; the byte code exhaustively', note=RB_NOTE,
    jobs=[dict(h='h_rb_num', mode='num_int', flavor='rb', quick=6000, thorough=100000), dict(h='h_rb_num', mode='num_pad', flavor='rb', quick=6000, thorough=100000),
          dict(h='h_rb_num', mode='num_date', flavor='rb', env=dict(TZ='UTC'), quick=4000, thorough=60000), dict(h='h_misc', mode='codec', quick=3000, thorough=200000)],
    rule='a case is a set of integers (up to 1200 digits, powers of two and ten and neighbours), or dates and neighbours at every precision, all pairs compared as '
         'numbers and as strings and each decoded again; or all 256 norm bytes and 400 floats and neighbours. Distinct by size class, or by the floats\' codes')
PROPS['C26'] = dict(level='exploration', technique='runtime monitoring: random object lifetimes with forced and continuous garbage collection in Ruby under ASan, results checked against plain Ruby', note=RB_NOTE + ' Compaction is not exercised.',
    jobs=[dict(h='h_rb_gc', mode='rb_gc', flavor='rb_asan', quick=130, thorough=4000, timeout=120)],
    rule='a case is a pool of up to a hundred library objects of 17 kinds made from one another, of which some are dropped and collected at random while the others go on being used, '
         'some operations running with a collection at every allocation; each answer is compared with what plain Ruby computes from the documents; the object table must stay consistent. '
         'Non-trivial when an object was used after others were dropped; distinct by the operations')

# ---- C24: the modes of the other properties once more, for what they do to memory
_MEM = {'VERIF_MEM': '1', 'ASAN_OPTIONS': runner.SAN_ENV['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1') + ':quarantine_size_mb=8:leak_check_at_exit=0'}
_MEM_N = {'h_index': 60, 'h_index2': 32, 'h_search': 64, 'h_parse': 120, 'h_analysis': 120, 'h_cont': 80, 'h_store': 120, 'h_misc': 80, 'h_thread': 80}
_MEM_MODES = [(h, m) for h, m in dict.fromkeys((j['h'], j['mode']) for s in PROPS.values() for j in s['jobs']) if h in _MEM_N and not m.endswith('_known')]
_VALGRIND = ['valgrind', '-q', '--error-exitcode=77', '--exit-on-first-error=yes', '--num-callers=20']
_VG_N = {'h_index': 6, 'h_search': 8, 'h_parse': 16, 'h_analysis': 32, 'h_mem': 16, 'h_index2': 4}
PROPS['C24'] = dict(level='exploration', technique='AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer after every case, descriptor accounting, valgrind memcheck',
    note='Held on the executions counted in the evidence: every case of the other properties\' workloads, and of one made of calls that report errors, ran under ASan and UBSan with a leak '
         'check and a count of the open files after it, and a part of them under valgrind memcheck, which watches uninitialised values. Says nothing about paths no workload reached; leaks when '
         'the file system fails or an index is damaged are outside the property. Not watched: alignment, shifts of negative numbers, calls through cast function pointers (the code base relies on them).',
    jobs=[dict(h='h_mem', mode='mem_errors', quick=1200, flavor='ubsan', env=_MEM, chunk=100)] +
         [dict(h=h, mode=m, quick=_MEM_N[h], thorough=_MEM_N[h] * 40, flavor='ubsan', env=_MEM, chunk=40) for h, m in _MEM_MODES] +
         [dict(h=h, mode=m, tag='vg_' + m, quick=_VG_N[h], thorough=_VG_N[h] * 40, flavor='plain', wrapper=_VALGRIND, chunk=4, timeout=300) for h, m in _MEM_MODES + [('h_mem', 'mem_errors')] if h in _VG_N],
    keys=r'crash:|leak:|fd-leak',
    rule='a case is one random workload of one mode, ended by a leak check and a count of the open descriptors (counter leak_checks), or run under memcheck (tags vg_*); '
         'non-trivial when the mode itself counts it so; distinct by mode and the hash of its operations')
