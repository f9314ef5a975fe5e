"""Build the compiler driver and export the facts of /repo's current tree.

The driver is rustc itself with a pass after analysis that writes the type-checked program (MIR of every
function of the crate and of the generic library code it instantiates, impls, vtables, statics, ADTs).
Nothing is linked or run.
"""
import os, subprocess, shutil, sys, json, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RSASL_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

# feature sets analysed.  'all' = everything; 'dist' = everything except registry_static, so that the
# built-in (non-distributed) registry is what gets compiled.
CONFIGS = {
    'all': ['--all-features'],
    'dist': ['--no-default-features', '--features',
             'std,provider,provider_base64,config_builder,plain,login,anonymous,external,xoauth2,oauthbearer,'
             'scram-sha-1,scram-sha-2,gssapi'],
}


def run(cmd, env, cwd, log):
    with open(log, 'wb') as f:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT)
    return p.returncode


def base_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith('RUST') and not k.startswith('CARGO') or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


class ExtractError(Exception):
    pass


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    env = base_env()
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    log = os.path.join(BUILD, 'driver.log')
    if run(['cargo', '+nightly', 'build', '--release', '--offline'], env, os.path.join(VERIF, 'driver'), log):
        raise ExtractError('driver does not build:\n' + open(log, errors='replace').read()[-3000:])
    return os.path.join(BUILD, 'driver', 'release', 'mirfacts')


def extract(config='all', force=True):
    """facts for the current tree; returns path of the JSON"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock.' + config), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(BUILD, 'lock.driver'), 'w') as dlk:
            fcntl.flock(dlk, fcntl.LOCK_EX)
            drv = build_driver()
        out = os.path.join(BUILD, 'facts', config + '.json')
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not force and os.path.exists(out):
            return out
        td = os.path.join(BUILD, 't-' + config)
        fp = os.path.join(td, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('rsasl-'):
                    shutil.rmtree(os.path.join(fp, d))
        if os.path.exists(out):
            os.remove(out)
        env = base_env()
        ns = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=env, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
        env['LD_LIBRARY_PATH'] = ns + '/lib'
        env['MIRFACTS_CRATE'] = 'rsasl'
        env['MIRFACTS_OUT'] = out
        env['RUSTC_WORKSPACE_WRAPPER'] = drv
        env['CARGO_TARGET_DIR'] = td
        log = os.path.join(BUILD, 'extract-%s.log' % config)
        rc = run(['cargo', '+nightly', 'check', '--offline', '--locked'] + CONFIGS[config], env, REPO, log)
        if rc or not os.path.exists(out):
            raise ExtractError('extraction (%s) failed:\n%s' % (config, open(log, errors='replace').read()[-3000:]))
        return out


if __name__ == '__main__':
    for c in sys.argv[1:] or ['all']:
        print(extract(c))
