#!/usr/bin/env python3
# campaign.py LANE OUT SEED N FILES... : samples mutations of the files, runs the checks that should notice each in a copy, and writes the survivors to OUT.
import os, random, shutil, subprocess, sys, time
lane, outp, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
files = sys.argv[5:]
CHECKS = {
 'model.go': 'C01 C03 C06 C19', 'schema.go': 'C03', 'decimal.go': 'C02 C01', 'uuid.go': 'C02', 'timestamp.go': 'C02', 'unitvalue.go': 'C02 C01',
 'data.go': 'C04', 'generator.go': 'C04 C05', 'misc.go': 'C07 C04 C12 C14 C16', 'struct_helpers.go': 'C04 C07 C25',
 'openapi/export_openapi.go': 'C08 C10 C31 C32', 'openapi/import_openapi.go': 'C09 C10 C32', 'openapi/import_swagger.go': 'C11 C32', 'openapi/model.go': 'C08 C09 C10',
 'graphql/export_graphql.go': 'C12 C32', 'graphql/import_graphql.go': 'C13 C32',
 'golang/export_golang.go': 'C14 C15 C05 C31', 'golang/golang_model.go': 'C14', 'golang/golang_server.go': 'C15', 'golang/golang_client.go': 'C15',
 'java/export_java.go': 'C16 C17 C05 C31', 'java/java_model.go': 'C16 C17', 'java/java_pom.go': 'C16', 'java/java_timestamp.go': 'C16', 'java/java_util.go': 'C16 C17',
 'java/java_server.go': 'C17 C16', 'java/java_client.go': 'C17', 'httptrace/export_http_examples.go': 'C18',
 'parser.go': 'C21 C22 C23 C24 C25 C30', 'unparser.go': 'C24 C25',
 'smithy/export_smithy.go': 'C26 C32 C31', 'smithy/import_smithy.go': 'C27 C32', 'cmd/sadl/main.go': 'C28', 'cmd/sadl/import.go': 'C28', 'cmd/sadl/export.go': 'C28', 'cmd/sadl/serve.go': 'C29',
}
base = f'/tmp/mut/{lane}'
shutil.rmtree(base, ignore_errors=True)
os.makedirs(base)
subprocess.run(['git', 'clone', '-q', '/repo', base + '/repo'], check=True)
subprocess.run(['git', 'clone', '-q', '/verif', base + '/verif'], check=True)
shutil.rmtree(base + '/verif/seeded', ignore_errors=True)
subprocess.run(f"sed -i 's#/repo#{base}/repo#g' {base}/verif/harness/go.mod {base}/verif/harness/noparser.json", shell=True, check=True)
subprocess.run(['go', 'build', '-o', base + '/mutate', '.'], cwd='/verif/tools/mutate', check=True, env=dict(os.environ, GOFLAGS='-mod=mod'))
repo = base + '/repo'
env = dict(os.environ, VERIF_DIR='', GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='0')
pts = []
for f in files:
    k = int(subprocess.run([base + '/mutate', f], cwd=repo, capture_output=True, text=True, errors='replace', check=True).stdout)
    pts += [(f, i) for i in range(k)]
random.Random(seed).shuffle(pts)
out = open(outp, 'a')
tot = killed = stillborn = 0
print(lane, len(pts), 'points', flush=True)
for f, i in pts[:n]:
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=repo)
    d = subprocess.run([base + '/mutate', f, str(i)], cwd=repo, capture_output=True, text=True, errors='replace').stdout.strip()
    pkg = './' + os.path.dirname(f) if os.path.dirname(f) else '.'
    b = subprocess.run(['go', 'build', '-overlay', base + '/verif/harness/noparser.json', '-o', '/dev/null', pkg], cwd=repo, capture_output=True, text=True, errors='replace', env=dict(env, GOFLAGS='-mod=readonly')) if f not in ('parser.go', 'unparser.go') and pkg not in ('./smithy', './cmd/sadl') else None
    if b and b.returncode:
        stillborn += 1
        continue
    tot += 1
    res = []
    hit = False
    for light in ('1', ''):  # a quarter of the cases first
        for c in CHECKS[f].split():
            if hit or not os.path.isdir(f'{base}/verif/harness/{c.lower()}') or (not light and f'{c}=3' in res): continue
            try:
                r = subprocess.run(['bash', 'run.sh', c], cwd=base + '/verif', capture_output=True, text=True, errors='replace', timeout=400, env=dict(env, MON_LIGHT=light, VERIF_SEED='1', VERIF_TIER='quick'))
                rc = r.returncode
                if rc == 1 and f'VIOLATION property={c} ' not in r.stdout: rc = 101
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            res.append(f'{c}={rc}')
            hit = rc == 1
    if hit: killed += 1
    else:
        out.write(f'SURVIVED {f}#{i} {d} [{" ".join(res)}]\n'); out.flush()
    if tot % 20 == 0:
        print(lane, tot, 'killed', killed, 'stillborn', stillborn, flush=True)
out.write(f'DONE {lane} {files}: {tot} mutants, {killed} killed, {stillborn} stillborn\n'); out.close()
shutil.rmtree(base, ignore_errors=True)
