"""Compile /repo's current sources to LLVM IR (for verification)."""
import os, re, subprocess, tempfile, shutil, concurrent.futures as cf, hashlib
REPO=os.environ.get('VP_REPO','/repo')
CONFIG='''#pragma once
#define HAS_GETOPT_LONG
#define HAVE_LUA
#define PACKAGE "wreport"
#define PACKAGE_VERSION "3.38"
#define TABLE_DIR "/usr/local/share/wreport"
'''
LIB='''error.cc options.cc notes.cc varinfo.cc vartable.cc dtable.cc var.cc conv.cc tables.cc tableinfo.cc opcodes.cc subset.cc bulletin.cc
buffers/bufr.cc buffers/crex.cc bufr/input.cc bufr/decoder.cc bufr_encoder.cc crex_decoder.cc crex_encoder.cc
bulletin/associated_fields.cc bulletin/bitmaps.cc bulletin/dds-printer.cc bulletin/dds-scanfeatures.cc bulletin/dds-validator.cc bulletin/internals.cc bulletin/interpreter.cc
internals/tabledir.cc utils/string.cc utils/sys.cc'''.split()
def libsources():
    """the library's .cc files in the current tree, relative to wreport/"""
    out=[f for f in LIB if os.path.exists(REPO+'/wreport/'+f)]
    for r,ds,fs in os.walk(REPO+'/wreport'):   # sources added since
        for f in sorted(fs):
            rel=os.path.relpath(os.path.join(r,f),REPO+'/wreport')
            if f.endswith('.cc') and rel not in LIB and not re.search(r'test|bench|lua|python|term|subprocess|fuzz|example',rel): out.append(rel)
    return out
def mkscratch():
    d=tempfile.mkdtemp(prefix='wvc.')
    open(d+'/config.h','w').write(CONFIG)
    os.makedirs(d+'/inc/wreport')
    open(d+'/inc/wreport/version.h','w').write('#pragma once\n#define WREPORT_VERSION_MAJOR 3\n#define WREPORT_VERSION_MINOR 38\n')
    return d
def cflags(d): return ['-std=c++17','-I'+d,'-I'+REPO,'-I'+REPO+'/wreport','-I'+d+'/inc','-w']
def compile_one(d,src):
    out=d+'/'+src.replace('/','_')+'.bc'
    r=subprocess.run(['clang++','-O1']+(['-fno-access-control'] if src.startswith('/') else [])+['-Xclang','-disable-llvm-passes','-ffp-contract=off','-fno-discard-value-names']+cflags(d)+['-c','-emit-llvm',(src if src.startswith('/') else REPO+'/wreport/'+src),'-o',out],capture_output=True,text=True)
    if r.returncode: raise RuntimeError('compile %s: %s'%(src,r.stderr[-3000:]))
    return out
def build_ir(d,srcs,extra_cc=()):
    """-> text of the linked, SSA-form module"""
    with cf.ThreadPoolExecutor(8) as ex:
        outs=list(ex.map(lambda s:compile_one(d,s),list(srcs)+list(extra_cc)))
    if len(outs)>1:
        subprocess.run(['llvm-link-18' if shutil.which('llvm-link-18') else '/usr/lib/llvm-18/bin/llvm-link']+outs+['-o',d+'/all.bc'],check=True,capture_output=True)
    else: shutil.copy(outs[0],d+'/all.bc')
    subprocess.run(['opt-18','-passes=function(sroa,simplifycfg)','-S',d+'/all.bc','-o',d+'/all.ll'],check=True)
    return open(d+'/all.ll').read()
