#!/opt/venv/bin/python
"""Developer tool: single-token mutants of nappy, and which of them no check reports.

mutate.py WORKDIR [--workers N] [--every K] [--only REGEX] [--cap SECONDS]

Mutants are made of a copy of /repo (never in /repo itself); one that passes the
stable tests is given to the checks that concern its module, with a time limit
per check.  WORKDIR/results.jsonl gets one line per mutant (nocompile, tests,
killed, SURVIVED); a run continues where the last one stopped.  No check uses
this tool.
"""
import argparse
import ast
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
R = REPO
FILES = [l.strip() for l in os.popen("cd /repo && git ls-files 'nappy/*.py'")]
SKIP = ("nappy/utils/ffi_translator.py",)


BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ids = ["%s.py::%s" % (x.partition("::")[0].replace(".", "/"), x.partition("::")[2]) for x in BASE]


def pos(src_lines_off, l, c_bytes, lines):
    return src_lines_off[l-1]+len(lines[l-1].encode()[:c_bytes].decode())
def run():
    out=[]
    for f in FILES:
        if f in SKIP or f.endswith('__init__.py') : continue
        s=open(os.path.join(R,f),newline='').read()
        t=ast.parse(s)
        lines=s.splitlines(True); off=[0]
        for l in lines: off.append(off[-1]+len(l))
        def seg(n): return pos(off,n.lineno,n.col_offset,lines),pos(off,n.end_lineno,n.end_col_offset,lines)
        def add(n,new,desc):
            a,b=seg(n)
            if s[a:b]!=new:
                out.append((f,n.lineno,desc,a,b,new))
        doc=set()
        for n in ast.walk(t):
            if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant): doc.add(id(n.body[0].value))
        infn=set()
        for fn in ast.walk(t):
            if isinstance(fn,ast.FunctionDef):
                for n in ast.walk(fn): infn.add(id(n))
        U=ast.unparse
        logs=('log','print','usage')
        skipn=set()
        for n in ast.walk(t):
            if isinstance(n,ast.Call) and (U(n.func).split('.')[0] in ('log','print','usage','logging','warnings') ) or isinstance(n,ast.Raise):
                for m in ast.walk(n): skipn.add(id(m))
        for n in ast.walk(t):
            if id(n) not in infn or id(n) in doc or id(n) in skipn: continue
            if isinstance(n,ast.Compare) and len(n.ops)==1:
                alt={ast.Lt:['<=','>'],ast.LtE:['<'],ast.Gt:['>=','<'],ast.GtE:['>'],ast.Eq:['!='],ast.NotEq:['=='],ast.In:['not in'],ast.NotIn:['in'],ast.Is:['is not'],ast.IsNot:['is']}[type(n.ops[0])]
                for o in alt: add(n,'(%s %s %s)'%(U(n.left),o,U(n.comparators[0])),'cmp '+o)
            if isinstance(n,ast.Constant) and type(n.value) is int:
                add(n,str(n.value+1),'+1')
                if n.value!=0: add(n,str(n.value-1),'-1')
            if isinstance(n,ast.Constant) and type(n.value) is bool: add(n,str(not n.value),'notbool')
            if isinstance(n,ast.Constant) and n.value is None: pass
            if isinstance(n,ast.Constant) and type(n.value) is str and n.value!='':
                if len(n.value)<=6: add(n,repr(n.value+' ') if n.value.strip()=='' else repr(''),'str')
            if isinstance(n,ast.BinOp):
                alt={ast.Add:['-'],ast.Sub:['+'],ast.Mult:['+'],ast.FloorDiv:['*'],ast.Div:['*'],ast.Mod:[]}.get(type(n.op),[])
                for o in alt: add(n,'(%s %s %s)'%(U(n.left),o,U(n.right)),'binop '+o)
                add(n,'(%s)'%U(n.left),'left only')
            if isinstance(n,ast.BoolOp):
                o=' or ' if isinstance(n.op,ast.And) else ' and '
                add(n,'('+o.join('(%s)'%U(v) for v in n.values)+')','boolop')
                for k in range(len(n.values)): add(n,'('+(' and ' if isinstance(n.op,ast.And) else ' or ').join('(%s)'%U(v) for i,v in enumerate(n.values) if i!=k)+')','drop %d'%k)
            if isinstance(n,ast.UnaryOp) and isinstance(n.op,ast.Not): add(n,'(%s)'%U(n.operand),'dropnot')
            if isinstance(n,(ast.If,ast.While,ast.IfExp)):
                add(n.test,'True' if not isinstance(n,ast.While) else '(%s)'%U(n.test),'if True'); add(n.test,'False','if False')
            if isinstance(n,ast.Expr) and isinstance(n.value,ast.Call) : add(n,'pass','delete stmt')
            if isinstance(n,ast.AugAssign): add(n,'pass','delete stmt'); add(n,'%s = %s'%(U(n.target),U(n.value)),'plain assign')
            if isinstance(n,ast.Assign) and not isinstance(n.targets[0],ast.Name): add(n,'pass','delete stmt')
            if isinstance(n,(ast.Continue,ast.Break)): add(n,'pass','delete jump')
            if isinstance(n,ast.Call) :
                for i in range(len(n.args)-1):
                    if isinstance(n.args[i],ast.Starred) or isinstance(n.args[i+1],ast.Starred): continue
                    c=ast.parse(U(n),mode='eval').body; c.args[i],c.args[i+1]=c.args[i+1],c.args[i]
                    add(n,U(c),'swap args')
                if isinstance(n.func,ast.Attribute) and n.func.attr in('strip','rstrip','lstrip','lower','upper','copy','replace','split','sort'): add(n,'(%s)'%U(n.func.value),'drop .'+n.func.attr)
                for i in range(len(n.keywords)):
                    c=ast.parse(U(n),mode='eval').body; del c.keywords[i]; add(n,U(c),'drop kw')
                if isinstance(n.func,ast.Name) and n.func.id in('list','sorted','reversed','abs','float','int','str','max','min','tuple','set') and len(n.args)>=1: add(n,'(%s)'%U(n.args[0]),'drop '+n.func.id)
            if isinstance(n,ast.Slice):
                if n.lower is not None: 
                    pass
            if isinstance(n,ast.Subscript) and isinstance(n.slice,ast.Slice): add(n,'(%s)'%U(n.value),'drop slice')
            if isinstance(n,ast.Return) and n.value is not None and not isinstance(n.value,ast.Constant): add(n,'return None','return None')
    return out

NAF=['C01','C03','C02','C14','C04','C05','C06','C07','C09','C10','C12','C11','C13','C28','C24','C26']
NCF=['C19','C17','C18','C15','C16','C21','C20','C22','C23','C26','C30']
def checks(f):
    b=os.path.basename(f)
    m=re.match(r'na_file_(\d+)',b)
    if m:
        p={'C12':None,'C14':None}
        fm=m.group(1)
        pat='*' if fm in('1001',) else '*%s*'%fm
        if fm=='2010': pat='*[234]010*'
        if fm=='1010': pat='*1010*'
        return [(c,pat) for c in ['C01','C03','C02','C04','C05','C06','C07','C09','C10','C11','C24']]
    if 'na_file' in f: return [(c,'*') for c in NAF]
    if b in('text_parser.py','list_manipulator.py','right_strip.py'): return [(c,'*') for c in ['C28','C01','C03','C02','C09','C08']]
    if b in('compare_na.py','compare.py'): return [('C27','*')]
    if b in('common_utils.py','parse_config.py'): return [(c,'*') for c in ['C12','C28','C23','C07','C01','C06','C20','C22','C25','C21']]
    if 'script' in f: return [('C29','*')]
    if b in('na_to_xarray.py','na_to_nc.py'): return [(c,'*') for c in ['C24','C31','C25','C26','C11']]
    if b=='xarray_utils.py': return [(c,'*') for c in ['C24','C25']+NCF]
    if b=='nappy_api.py': return [(c,'*') for c in ['C07','C12','C25','C23','C30','C14','C28']]
    return [(c,'*') for c in NCF]
def sh(cmd,t,**k):
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True,**k)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,''

def work(args):
    i,m=args
    f,l,d,a,b,new=m
    w=os.path.join(OPTS.workdir, 'w%d' % os.getpid())
    if not os.path.isdir(w):
        os.makedirs(w)
        subprocess.check_call(['cp','-a',OPTS.workdir + '/base',w+'/repo']); 
        subprocess.check_call("mkdir %s/verif && cd %s && cp -a check.py replay.py props sx known_findings.txt properties.jsonl %s/verif/" % (w, HERE, w),shell=True)
        subprocess.check_call(['cp','-a','/repo/tests',w+'/tests'])
        for x in ['pytest.ini','pyproject.toml','tox.ini','setup.cfg','conftest.py','example_files']:
            if os.path.exists('/repo/'+x): subprocess.check_call(['cp','-a','/repo/'+x,w+'/'])
    src=open(OPTS.workdir + '/base/' + f,newline='').read()
    s=src[:a]+new+src[b:]
    r={'i':i,'f':f,'l':l,'d':d,'old':src[a:b][:100],'new':new[:100]}
    try: compile(s,f,'exec')
    except Exception as e: r['res']='nocompile'; return r
    p=w+'/repo/'+f
    open(p,'w',newline='').write(s)
    try:
        env=dict(os.environ,PYTHONPATH=w+'/repo',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',MPLBACKEND='Agg',PYTEST_DISABLE_PLUGIN_AUTOLOAD='1',NAPPY_AUTO_UPDATE_TEST_DATA='false',GIT_ALLOW_PROTOCOL='file',TZ='UTC',LANG='C.UTF-8',PYTHONPYCACHEPREFIX=OPTS.workdir + '/nopyc')
        rc,o=sh(['/opt/venv/bin/python','-m','pytest','-q','-x','-p','no:cacheprovider','-p','pytest_timeout','--timeout=60','--rootdir='+w,'--basetemp='+w+'/tmp']+ids,200,cwd=w,env=env)
        if rc!=0: r['res']='tests'; return r
        env=dict(os.environ,VERIF_REPO=w+'/repo',VERIF_SHUFFLE='1')
        und=[]
        for c,pat in checks(f):
            rc,o=sh(['/opt/venv/bin/python',w+'/verif/check.py',c,'--case',pat,'--jobs','1'], OPTS.cap, cwd=w + '/verif',env=env)
            if rc==1: r['res']='killed'; r['by']=c; return r
            if rc not in(0,124) or 'UNDEC' in o: und.append((c,rc,[x[:160] for x in o.splitlines() if 'UNDEC' in x or 'Error' in x][:2]))
        r['res']='SURVIVED'; r['und']=und
        return r
    finally:
        open(p,'w',newline='').write(src)

def main():
    global OPTS
    p = argparse.ArgumentParser()
    p.add_argument("workdir")
    p.add_argument("--workers", type=int, default=6)
    p.add_argument("--every", type=int, default=3)
    p.add_argument("--only", default="")
    p.add_argument("--cap", type=int, default=20)
    OPTS = p.parse_args()
    OPTS.workdir = os.path.abspath(OPTS.workdir)
    os.makedirs(OPTS.workdir, exist_ok=True)
    if not os.path.isdir(OPTS.workdir + "/base"):
        subprocess.check_call(["cp", "-a", REPO, OPTS.workdir + "/base"])
    mutants = run()
    random.Random(7).shuffle(mutants)
    seen, keep = set(), []
    for i, m in enumerate(mutants):         # one per line
        if m[:2] not in seen:
            seen.add(m[:2])
            keep.append((i, m))
    out = OPTS.workdir + "/results.jsonl"
    done = {json.loads(l)["i"] for l in open(out)} if os.path.exists(out) else set()
    todo = [x for x in keep[::OPTS.every] if x[0] not in done and re.search(OPTS.only, x[1][0])]
    print(len(todo), "mutants", flush=True)
    with mp.Pool(OPTS.workers) as pool, open(out, "a") as g:
        for r in pool.imap_unordered(work, todo):
            g.write(json.dumps(r) + "\n")
            g.flush()
            if r["res"] == "SURVIVED":
                print(r["f"], r["l"], r["d"], r["old"][:80], "=>", r["new"][:80], r.get("und") or "", flush=True)


if __name__ == "__main__":
    main()
