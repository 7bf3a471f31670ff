#!/usr/bin/env python3
"""gen.py DIR: copies /repo's crate to DIR, its src/lie over vmodel in place of std, and adds the harnesses."""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))


def generate(dst, repo='/repo'):
    shutil.copytree(os.path.join(repo, 'src'), os.path.join(dst, 'src'))
    toml = open(os.path.join(repo, 'Cargo.toml')).read()
    m = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    with open(os.path.join(dst, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "vk"\nversion = "0.1.0"\nedition = "%s"\n[lib]\npath = "src/lib.rs"\n'
                '[[bin]]\nname = "replay"\npath = "src/replay.rs"\n'
                '[dependencies]\nlazy_static = { path = "%s/lazy_static" }\n[workspace]\n'
                '[lints.rust]\nunexpected_cfgs = { level = "allow" }\n' % (m.group(1) if m else '2015', dst))
    shutil.copytree(os.path.join(HERE, 'lazy_static'), os.path.join(dst, 'lazy_static'))
    for root, _, files in os.walk(os.path.join(dst, 'src', 'lie')):
        for n in files:
            p = os.path.join(root, n)
            s = open(p).read()
            s = re.sub(r'(?<![\w:])(::)?std::', 'crate::vmodel::', s)
            open(p, 'w').write(s)
    kani = os.path.join(HERE, '..', 'kani', 'src')
    shutil.copy(os.path.join(HERE, 'vmodel.rs'), os.path.join(dst, 'src', 'vmodel.rs'))
    shutil.copy(os.path.join(HERE, 'c31.rs'), os.path.join(dst, 'src', 'c31.rs'))
    shutil.copy(os.path.join(kani, 'nd.rs'), os.path.join(dst, 'src', 'nd.rs'))
    shutil.copy(os.path.join(kani, 'replay.rs'), os.path.join(dst, 'src', 'replay.rs'))
    p = os.path.join(dst, 'src', 'lib.rs')
    s = '#![feature(coerce_unsized, unsize)]\n' + open(p).read()
    s += ('\n#[macro_use]\npub mod nd;\npub mod vmodel;\npub mod c31;\n'
          '#[cfg(not(kani))]\npub fn all() -> Vec<(&\'static str, fn())> { c31::LIST.to_vec() }\n'
          '#[cfg(not(kani))]\npub fn all_refusals() -> Vec<(&\'static str, fn())> { c31::REFUSALS.to_vec() }\n')
    open(p, 'w').write(s)


if __name__ == '__main__':
    generate(os.path.abspath(sys.argv[1]))
