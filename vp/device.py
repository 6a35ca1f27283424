"""A mock NETCONF device around the real ncdiff ModelDevice: only the transport
(ncclient Manager.execute and the session) is replaced."""
import os, sys, shutil, tempfile, logging
logging.disable(logging.CRITICAL)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True

from lxml import etree
import ncdiff
from ncdiff.manager import ModelDevice
from ncclient import operations, xml_
from ncclient.manager import Manager
from ncclient.devices.default import DefaultDeviceHandler

assert os.path.realpath(ncdiff.__file__).startswith(
    os.path.realpath(os.environ.get('VP_REPO', '/repo')) + '/src/'), ncdiff.__file__

YANG = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'yang')
NC = xml_.BASE_NS_1_0
MON = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
URLS = {'urn:vp:alpha': 'va', 'urn:vp:beta': 'vb', 'urn:vp:ids': 'vi', NC: 'nc'}
MODULES = {'vpalpha': ('va', 'urn:vp:alpha'), 'vpbeta': ('vb', 'urn:vp:beta'),
           'vpids': ('vi', 'urn:vp:ids')}
BASE_CAPS = ['urn:ietf:params:netconf:base:1.0',
             'urn:ietf:params:netconf:capability:writable-running:1.0']


class Session:
    def __init__(self, caps):
        self._server_capabilities = caps
        self.connected = True
    @property
    def server_capabilities(self):
        return self._server_capabilities
    def get_listener_instance(self, cls):
        pass
    def add_listener(self, listener):
        pass
    def remove_listener(self, listener):
        pass
    def is_alive(self):
        return True
    def close(self):
        pass


def schema_reply(text):
    ele = xml_.to_ele('<rpc-reply message-id="1" xmlns="%s"><data xmlns="%s"/></rpc-reply>' % (NC, MON))
    ele[0].text = text
    r = operations.rpc.RPCReply(xml_.to_xml(ele))
    r.parse()
    r.data = text
    return r


def rpc_error_reply():
    r = operations.rpc.RPCReply(
        '<rpc-reply xmlns="%s"><rpc-error><error-type>rpc</error-type>'
        '<error-tag>operation-failed</error-tag><error-severity>error</error-severity>'
        '</rpc-error></rpc-reply>' % NC)
    r.parse()
    return r


def data_reply(inner):
    r = operations.rpc.RPCReply(
        '<rpc-reply xmlns="%s" message-id="1"><data>%s</data></rpc-reply>' % (NC, inner))
    r.parse()
    return r


class Dev(ModelDevice):
    """handler(cls, args, kwargs) -> reply : what the remote device answers."""
    handler = None


_orig_execute = Manager.execute


def _execute(self, cls, *args, **kwargs):
    h = getattr(self, 'handler', None)
    if h is None:
        return rpc_error_reply()
    return h(cls, args, kwargs)


Manager.execute = _execute


def caps_for(modules):
    return BASE_CAPS + ['%s?module=%s&revision=2024-01-01' % (u, m)
                        for m, (p, u) in sorted(modules.items())]


def make_device(folder=None, modules=MODULES, load=('vpalpha', 'vpbeta'), src=YANG):
    caps = caps_for(modules)
    dev = Dev(Session(caps), DefaultDeviceHandler())
    tmp = folder or tempfile.mkdtemp(prefix='vpyang')
    try:
        for m in [m for m in modules] + [f[:-5] for f in os.listdir(src) if f.endswith('-sub.yang') and f[:-9] in modules]:
            shutil.copy(os.path.join(src, m + '.yang'), tmp)
        dev.scan_models(folder=tmp, download='ignore')
        for m in load:
            dev.load_model(m)
    finally:
        if folder is None:
            shutil.rmtree(tmp, ignore_errors=True)
    return dev
