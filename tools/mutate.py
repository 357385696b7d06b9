#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py [--workers N] [--sample K] [--seed S] [--out FILE] [FILE[:LO-HI]...]
Small syntactic changes to /repo/src, one at a time, in scratch copies under /tmp/mut; the checks
mapped to the file run in order until one reports. Survivors are equivalent changes or gaps."""
import argparse, os, random, re, shutil, subprocess, threading, queue, json, sys, time

V, R, W = '/verif', '/repo', '/tmp/mut'
F, B = 'full', 'base'
MAP = {
  'dnm/mod.rs': [(F, 'P02 P03 P01 P07 P12 P08 P31')],
  'dnm/c14n.rs': [(F, 'P06')],
  'dnm/range.rs': [(F, 'P04 P05 P01 P12 P16')],
  'dnm/node.rs': [(B, 'P21'), (F, 'P02 P24')],
  'dnm/parameters.rs': [(B, 'P28'), (F, 'P02 P01')],
  'tokenizer.rs': [(F, 'P09 P10 P08 P12')],
  'data.rs': [(F, 'P11 P12 P13')],
  'parallel_data.rs': [(F, 'P11 P12 P13 P14')],
  'parallel_data/corpus.rs': [(F, 'P13 P14')],
  'parallel_data/document.rs': [(F, 'P11 P12 P13')],
  'patterns/matching.rs': [(F, 'P16')],
  'patterns/rules.rs': [(F, 'P15 P16')],
  'patterns/utils.rs': [(B, 'P17'), (F, 'P15')],
  'util/data_helpers.rs': [(F, 'P24 P27 P31 P22 P23')],
  'util/path_helpers.rs': [(F, 'P26 P31')],
  'util/token_model.rs': [(F, 'P25')],
  'util/plot.rs': [(B, 'P30')],
  'util/test.rs': [(B, 'P29')],
  'ngrams.rs': [(B, 'P18 P19')],
  'stopwords.rs': [(B, 'P20')],
  'ams.rs': [(F, 'P22 P23')],
  'extern_use.rs': [(F, 'P31 P26')],
}

def ops(line):
  """yield (description, new line)"""
  code = re.sub(r'\s//.*$', '', line)
  def sub(pat, rep, tag):
    for m in re.finditer(pat, code):
      new = line[:m.start()] + m.expand(rep) + line[m.end():]
      if new != line: yield (tag, new)
  yield from sub(r' <= ', ' < ', '<=->< ')
  yield from sub(r' >= ', ' > ', '>=->>')
  yield from sub(r' < ', ' <= ', '<-><=')
  yield from sub(r' > ', ' >= ', '>->>=')
  yield from sub(r' == ', ' != ', '==->!=')
  yield from sub(r' != ', ' == ', '!=->==')
  yield from sub(r' && ', ' || ', '&&->||')
  yield from sub(r' \|\| ', ' && ', '||->&&')
  yield from sub(r' \+ ', ' - ', '+->-')
  yield from sub(r' - ', ' + ', '-->+')
  yield from sub(r' \+= ', ' -= ', '+=->-=')
  yield from sub(r' -= ', ' += ', '-=->+=')
  yield from sub(r'\btrue\b', 'false', 'true->false')
  yield from sub(r'\bfalse\b', 'true', 'false->true')
  yield from sub(r'\bif (?!let)(.*) \{$', r'if !(\1) {', 'negate if')
  yield from sub(r'\bwhile (?!let)(.*) \{$', r'while false && (\1) {', 'no loop')
  yield from sub(r'\.is_some\(\)', '.is_none()', 'some->none')
  yield from sub(r'\.is_none\(\)', '.is_some()', 'none->some')
  yield from sub(r'\.is_empty\(\)', '.is_empty() == false', 'not empty')
  yield from sub(r'\.trim\(\)', '', 'no trim')
  yield from sub(r'\.trim(_start|_end)\(\)', '.trim()', 'full trim')
  yield from sub(r'\.to_(ascii_)?lowercase\(\)', '.to_string()', 'no lower')
  yield from sub(r'starts_with\(', 'contains(', 'starts->contains')
  yield from sub(r'ends_with\(', 'contains(', 'ends->contains')
  yield from sub(r'\.contains\(', '.starts_with(', 'contains->starts')
  yield from sub(r'\bbreak;', 'continue;', 'break->continue')
  yield from sub(r'\bcontinue;', 'break;', 'continue->break')
  yield from sub(r'\bcontinue;', '', 'no continue')
  yield from sub(r'\bbreak;', '', 'no break')
  yield from sub(r'\.skip\(\d+\)', '', 'no skip')
  yield from sub(r'\.rev\(\)', '', 'no rev')
  yield from sub(r'\.cloned\(\)\.unwrap_or', '.cloned().xor(None).unwrap_or', 'noop')if False else []
  yield from sub(r'\bmin\(', 'max(', 'min->max')
  yield from sub(r'\bmax\(', 'min(', 'max->min')
  yield from sub(r'\bfirst\b', 'last', 'first->last')
  yield from sub(r'\blast\b', 'first', 'last->first')
  yield from sub(r'\bany\(', 'all(', 'any->all')
  yield from sub(r'\ball\(', 'any(', 'all->any')
  yield from sub(r'\bget_next_sibling\b', 'get_prev_sibling', 'next->prev')
  yield from sub(r'\bget_prev_sibling\b', 'get_next_sibling', 'prev->next')
  yield from sub(r'\bstart\b', 'end', 'start->end')
  yield from sub(r'\bend\b', 'start', 'end->start')
  yield from sub(r'\bSome\(([a-z_][a-z_.()]*)\)(?! =)', r'None', 'Some->None')
  yield from sub(r'\bOk\(([a-z_]+)\)(?! =)', r'Ok(Default::default())', 'Ok default')
  for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', code):
    n = int(m.group(1))
    yield ('%d->%d' % (n, n + 1), line[:m.start()] + str(n + 1) + line[m.end():])
    if n: yield ('%d->%d' % (n, n - 1), line[:m.start()] + str(n - 1) + line[m.end():])
  for m in re.finditer(r'"((?:[^"\\]|\\.)+)"', code):
    s = m.group(1)
    yield ('string+zz', line[:m.end() - 1] + 'zz' + line[m.end() - 1:])
    if len(s) > 1 and s[-2] != '\\' and s[-1] != ')' and s[-1] != ']': yield ('string-', line[:m.end() - 2] + line[m.end() - 1:])
    if '|' in s: yield ('string alt', line[:m.start(1)] + re.sub(r'\|[^|)]*', '', s, count=1) + line[m.end(1):])
    for q in ('+', '*', '?'):
      if q in s and 'Regex' in code: yield ('string no ' + q, line[:m.start(1)] + s.replace(q, '', 1) + line[m.end(1):])
  for m in re.finditer(r"'(\\?.)'", code):
    yield ('char', line[:m.start()] + ("'~'" if m.group(1) != '~' else "'^'") + line[m.end():])
  st = code.strip()
  if st.endswith(';') and not re.match(r'(let|return|use|pub|mod|static|extern|type|const|break|continue|\}|\))', st):
    yield ('delete', line[:len(line) - len(line.lstrip())] + '{}')
  if re.match(r'^let mut \w+ = .*;$', st) is None and re.match(r'^[|&]{2} ', st):
    yield ('delete condition', '')

def mutants(path):
  lines = open(os.path.join(R, 'src', path)).read().split('\n')
  out, tests = [], False
  for i, l in enumerate(lines):
    if l.strip().startswith('#[cfg(test)]'): break
    s = l.strip()
    if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('extern '): continue
    seen = set()
    for tag, new in ops(l):
      if new in seen: continue
      near = ' '.join(lines[max(0, i - 2):i + 1])
      if tag.startswith('string') and re.search(r'Err\(|format!|println!|map_err|expect\(|panic!|assert', near): continue
      seen.add(new)
      out.append((path, i, tag, l, new))
  return out

def setup(n):
  d = f'{W}/{n}'
  if os.path.exists(d):
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
    return d
  os.makedirs(d)
  subprocess.run(['cp', '-a', R, d + '/repo'], check=True)
  subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
  os.makedirs(d + '/verif')
  for x in ('harness', 'stubs', 'run.sh', 'KNOWN_FINDINGS.txt'):
    subprocess.run(['cp', '-a', f'{V}/{x}', d + '/verif/'], check=True)
  subprocess.run(f"grep -rl '/repo' {d}/verif/harness --include=*.rs --include=Cargo.toml | xargs sed -i 's#\"/repo#\"{d}/repo#g'", shell=True, check=True)
  return d

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--workers', type=int, default=6)
  ap.add_argument('--sample', type=int, default=0)
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--out', default='/tmp/mut/results.jsonl')
  ap.add_argument('--list', action='store_true')
  ap.add_argument('files', nargs='*')
  a = ap.parse_args()
  todo = []
  for f in a.files or list(MAP):
    name, _, rng = f.partition(':')
    ms = mutants(name)
    if rng:
      lo, hi = map(int, rng.split('-'))
      ms = [m for m in ms if lo <= m[1] + 1 <= hi]
    todo += ms
  random.Random(a.seed).shuffle(todo)
  if a.sample: todo = todo[:a.sample]
  if a.list:
    from collections import Counter
    print(Counter(m[0] for m in todo), len(todo)); return
  os.makedirs(W, exist_ok=True)
  done = set()
  if os.path.exists(a.out):
    for l in open(a.out):
      r = json.loads(l); done.add((r['file'], r['line'], r['new']))
  q = queue.Queue()
  for m in todo:
    if (m[0], m[1] + 1, m[4].strip()) not in done: q.put(m)
  lock = threading.Lock()
  env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
  def worker(n):
    d = setup(n)
    for c in (F, B): subprocess.run([d + '/verif/run.sh', c, 'list'], env=env, stdout=subprocess.DEVNULL)
    while True:
      try: m = q.get_nowait()
      except queue.Empty: return
      path, i, tag, old, new = m
      p = f'{d}/repo/src/{path}'
      orig = open(p).read()
      ls = orig.split('\n'); assert ls[i] == old; ls[i] = new
      open(p, 'w').write('\n'.join(ls))
      res, by, t0 = 'SURVIVED', '', time.time()
      notes = []
      for crate, props in MAP[path]:
        for pr in props.split():
          try:
            r = subprocess.run(['bash', '-c', 'ulimit -v 6000000; exec timeout -k 5 240 "$@"', 'x', d + '/verif/run.sh', crate, 'run', pr], env=env, capture_output=True, text=True, errors='replace')
          except Exception as e:
            notes.append(str(e)); continue
          if r.returncode == 3: res = 'nobuild'; break
          if r.returncode == 1: res, by = 'caught', pr; break
          if r.returncode != 0: notes.append(f'{pr}: exit {r.returncode}')
        if res != 'SURVIVED': break
      if res == 'SURVIVED' and notes: res = 'noanswer'
      open(p, 'w').write(orig)
      with lock:
        with open(a.out, 'a') as f:
          f.write(json.dumps(dict(file=path, line=i + 1, tag=tag, old=old.strip(), new=new.strip(), res=res, by=by, notes=notes, s=round(time.time() - t0, 1))) + '\n')
  ts = [threading.Thread(target=worker, args=(n,)) for n in range(a.workers)]
  for t in ts: t.start()
  for t in ts: t.join()

main()
