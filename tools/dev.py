"""Development aid: run a harness mode outside the registry and group what it reports."""
import sys, os, time
import build, runner
h, mode, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
flavor = sys.argv[5] if len(sys.argv) > 5 else 'asan'
t0 = time.time()
if flavor.startswith('rb'):
    wrapper, env = build.ruby_command(flavor)
    exe = os.path.join(build.RB, h + '.rb')
else:
    wrapper, env, exe = None, None, build.build(flavor, h)
t1 = time.time()
job = runner.Job(exe, mode, n, tag=mode, wrapper=wrapper, env=env)
res = runner.run_jobs([job], seed, 'quick')
print('build %.1fs run %.1fs' % (t1 - t0, time.time() - t1))
runner.summary(res)
