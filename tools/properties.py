# Source of /verif/properties.jsonl: python3 tools/properties.py
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["public return values and callbacks"],hook_needed=None)))
F='packages/function/src/'
p('C01','Bounded parallel runner: concurrency limit, order, result slots, failures',
 'Running a list of tasks with a concurrency limit never has more than that many tasks started-and-unfinished at once (a task waiting to be retried counts), starts every task exactly once in list order, and starts the next task as soon as a slot is free. Each task is retried at most the allowed number of times, its outcome (value, fallback from the error handler, or undefined when retries are stopped) is reported to its callbacks exactly once with its own index and lands in its own position of the resolved list. The run resolves only after every task has finished, and rejects with an aggregate of the failing task\'s errors, oldest first (its cause tells the task\'s index), exactly when some task exhausts its retries and no error handler was given.',
 ['schedules','configurations','fault_sequences'],'every completion order, failure pattern, concurrency, retry count and callback set','Tests run a few fixed task lists with real timers in one order; the limit and the slot discipline must hold for every order of completions and failures.',
 [F+'control/parallel.ts',F+'catch/retry.ts'],[('worker pull loop','control/parallel.ts worker()'),('per-task retry','catch/retry.ts retry()')])
p('C02','Retry: attempt bound, pacing, stop signal and error aggregation',
 'Retrying a task performs at most one initial attempt plus the given number of retries, never overlaps attempts, stops at the first success and resolves with that value, and between a failed attempt and the next waits the configured time (a fresh value inside the inclusive range when a range is given) but never after the last attempt. The retry callback receives the latest error and the number of the failed retry (1, 2, ...), and returning true ends the retrying at once with the error handler\'s value, or undefined. After exhaustion the error handler\'s value is the result; without a handler the call rejects with an aggregate that lists every error in the order it happened.',
 ['schedules','fault_sequences','configurations'],'every success/failure sequence, stop decision, wait setting and task kind','Tests sample single sequences; pacing and order must hold for each fault sequence.',
 [F+'catch/retry.ts',F+'delay/delay.ts'],[('attempt loop','catch/retry.ts retry()'),('wait between attempts','delay/delay.ts')])
p('C03','Async memoization: single flight per key, no caching of failures, expiry',
 'For an async function memoized by key, calls that arrive while the same key is being computed share that single computation and all of them settle with its outcome, while different keys never wait for or see one another. A successful value is returned to later calls without recomputation until it expires (or is deleted or cleared), after which the function runs again; a failure reaches every waiting caller, is not cached, and the next call computes afresh.',
 ['schedules','histories','fault_sequences'],'every interleaving of calls, completions, failures, clock advances, deletes and clears over several keys','The tests for it do not run in this environment and could only sample a few interleavings.',
 [F+'cache/memoizeWithAsync.ts'],[('in-flight queue per key','cache/memoizeWithAsync.ts'),('expiry stamp','cache/memoizeWithAsync.ts')])
p('C04','Sync memoization: one computation per live key, expiry, delete and clear',
 'A function memoized by key runs once for each key while that key\'s entry is live and every call returns the value of the latest computation for its own key; keys are independent and compared by identity of the computed key. An entry stops being live when its lifetime has passed, when it is deleted, or when the cache is cleared, and a call that throws stores nothing.',
 ['histories','inputs'],'every history of calls, clock advances, deletes, clears and throws over several keys','Tests for it do not run here; a cache must be right after every history.',
 [F+'cache/memoizeWith.ts'],[('cache map with expiry','cache/memoizeWith.ts')])
json_out=lambda: open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
exec(open(os.path.join(os.path.dirname(__file__),'properties_more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(__file__),'properties_more.py')) else None
json_out()
for x in P:
    assert len(x['title'])<=80,x['id']
    import re
    n=len(re.findall(r'[.](?:\s|$)',x['statement'])); 
    if n>3: print('sentences?',x['id'],n)
