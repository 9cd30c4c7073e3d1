"""Version list of the recording package, set by the harness: parts separated by '+'."""
VERSION = ['1']

def versionlist():
    return ['vrec-' + v for v in VERSION[0].split('+') if v]
