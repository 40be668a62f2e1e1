"""Which binaries decide which property."""
import os
def cli(build):
    return build.build('pocketkaldi', [], kind='full', variant='san', extra_main=os.path.join(build.REPO, 'src', 'main.cc'))
def tools(build):
    return os.path.join(build.REPO, 'tool')
def python(build):
    return 'python3-vt'
def stub(build):
    return os.path.join(build.VERIF, 'props', 'stub')
BINARIES = {
    'cli': {'src': ['p_cli.cc'], 'kind': 'full'},
    'tools': {'src': ['p_tools.cc']},
    'convert': {'src': ['p_convert.cc'], 'kind': 'full'},
    'scripts': {'src': ['p_scripts.cc']},
    'text': {'src': ['p_text.cc']},
    'store': {'src': ['p_store.cc']},
    'mat': {'src': ['p_mat.cc']},
    'fst': {'src': ['p_fst.cc']},
    'signal': {'src': ['p_signal.cc']},
    'nnet': {'src': ['p_nnet.cc']},
    'e2e': {'src': ['p_e2e.cc'], 'kind': 'full'},
    'damage': {'src': ['p_damage.cc'], 'kind': 'full'},
    'decoder': {'src': ['p_decoder.cc'], 'kind': 'full'},
}
TABLE = {
    'C27': {'runs': [{'bin': 'cli', 'helpers': {'PBT_CLI': cli}}]},
    'C08': {'runs': [{'bin': 'tools', 'helpers': {'PBT_TOOLS': tools, 'PBT_PYTHON': python, 'PYTHONPATH': stub}}]},
    'C29': {'runs': [{'bin': 'tools', 'helpers': {'PBT_TOOLS': tools, 'PBT_PYTHON': python, 'PYTHONPATH': stub}}]},
    'C34': {'runs': [{'bin': 'convert', 'helpers': {'PBT_TOOLS': tools, 'PBT_PYTHON': python, 'PYTHONPATH': stub}}]},
    'C32': {'runs': [{'bin': 'scripts', 'helpers': {'PBT_TOOLS': tools, 'PBT_PYTHON': python, 'PYTHONPATH': stub}}]},
    'C33': {'runs': [{'bin': 'scripts', 'helpers': {'PBT_TOOLS': tools, 'PBT_PYTHON': python, 'PYTHONPATH': stub}}]},
    'C02': {'runs': [{'bin': 'e2e'}, {'bin': 'e2e', 'variant': 'fast', 'only': 'come_and_go'}, {'bin': 'e2e', 'variant': 'tsan', 'only': 'threads'}]},
    'C31': {'runs': [{'bin': 'e2e'}]},
    'C28': {'runs': [{'bin': 'e2e'}]},
    'C20': {'runs': [{'bin': 'e2e'}]},
    'C35': {'runs': [{'bin': 'damage'}]},
    'C07': {'runs': [{'bin': 'e2e'}, {'bin': 'e2e', 'variant': 'fast', 'only': 'marathon'}]},
    'C01': {'runs': [{'bin': 'e2e'}, {'bin': 'e2e', 'variant': 'fast', 'only': 'long_streams'}]},
    'C06': {'runs': [{'bin': 'decoder'}, {'bin': 'decoder', 'variant': 'fast', 'only': 'marathon_history'}]},
    'C05': {'runs': [{'bin': 'decoder', 'scale': 0.5}, {'bin': 'decoder', 'variant': 'fast'}]},
    'C04': {'runs': [{'bin': 'decoder', 'scale': 0.4}, {'bin': 'decoder', 'variant': 'fast'}]},
    'C03': {'runs': [{'bin': 'decoder'}, {'bin': 'decoder', 'variant': 'fast', 'only': 'marathon'}]},
    'C21': {'runs': [{'bin': 'text'}]},
    'C22': {'runs': [{'bin': 'text'}]},
    'C23': {'runs': [{'bin': 'store'}]},
    'C24': {'runs': [{'bin': 'store'}, {'bin': 'store', 'variant': 'fast'}]},
    'C30': {'runs': [{'bin': 'text'}]},
    'C26': {'runs': [{'bin': 'mat'}]},
    'C18': {'runs': [{'bin': 'mat'}]},
    'C19': {'runs': [{'bin': 'mat'}, {'bin': 'nnet'}]},
    'C11': {'runs': [{'bin': 'signal'}]},
    'C12': {'runs': [{'bin': 'signal'}]},
    'C13': {'runs': [{'bin': 'signal'}]},
    'C14': {'runs': [{'bin': 'signal'}]},
    'C15': {'runs': [{'bin': 'signal'}]},
    'C25': {'runs': [{'bin': 'signal'}]},
    'C09': {'runs': [{'bin': 'fst'}]},
    'C10': {'runs': [{'bin': 'fst'}, {'bin': 'decoder'}]},
    'C17': {'runs': [{'bin': 'nnet'}]},
    'C16': {'runs': [{'bin': 'nnet'}]},
}
