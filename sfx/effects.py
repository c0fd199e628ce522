"""File-system / process effects in the MIR call graph."""
import re

# calls that can change, replace or delete something on disk, or hand over to another program
WRITE = re.compile(
    r'^std::fs::(write|rename|remove_file|remove_dir|remove_dir_all|copy|hard_link|soft_link|create_dir|create_dir_all|set_permissions|set_times)$'
    r'|^std::fs::File::(create|create_new|create_buffered|set_len|set_permissions|set_times|set_modified)$'
    r'|^std::fs::DirBuilder|^std::os::unix::fs::(symlink|chown|fchown|lchown)$|^std::os::.*FileExt'
    r'|^std::process::Command|^std::net::|^csv::(Writer|WriterBuilder)::.*(from_path|from_writer)'
    r'|^libc::')
OPENOPT = re.compile(r'^std::fs::OpenOptions::(truncate|write|create|create_new|append|read|open|new)$')
FILEOUT = re.compile(r'^std::io::Write::|^std::io::BufWriter|^std::io::LineWriter|^std::io::copy')


def scan(ana, insts):
    """[(inst, name, line, terminator)] of the effectful calls in the given bodies."""
    out = []
    for inst in insts:
        for name, callee, line, t in ana.calls(inst):
            full = callee['name'] if callee else name
            if WRITE.search(name) or OPENOPT.search(name) or FILEOUT.search(name) and 'File' in full:
                out.append((inst, name, line, t))
    return out


def const_bool(op):
    if op[0] == 'k':
        v = op[1].get('v') or {}
        if 'bool' in v:
            return v['bool']
    return None


def may_write(ana, *roots):
    """First chain root -> .. -> effectful call, or None."""
    seen = ana.reach(*roots)
    for i in seen:
        inst = ana.p.insts.get(i)
        if inst is None or not inst['body'] or not inst['local']:
            continue
        for name, callee, line, t in ana.calls(inst):
            full = callee['name'] if callee else name
            if WRITE.search(name) or FILEOUT.search(name) and 'std::fs::File' in full or \
                    name.startswith('std::fs::OpenOptions::') and name.rsplit('::', 1)[1] in ('open',):
                return ana.chain(seen, i) + ['%s (%s:%s)' % (name, inst['file'], line)]
    return None
