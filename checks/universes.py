"""Small project universes (path -> variants) shared by the state-space checks."""
import json

from vp import env, site

PUB = "src/public/"


def page(body="", head=""):
    return "<!DOCTYPE html>\n<html><head><title>t</title>%s</head><body>%s</body></html>\n" % (head, body)


T = lambda path, vars="{}": '<!--[TEMPLATE: ["%s", %s]]-->' % (path, vars)
CSS = '<link rel="stylesheet" href="%s">'
JS = '<script src="%s"></script>'


def _html():
    return dict(name="html", files={
        PUB + "index.html": [page(T("/a.html")), page("x", CSS % "/css/main.css"), None],
        "src/partials/a.html": ["<p>1</p>", "<p>22</p>" + T("/b.html"), (CSS % "/css/main.css") + "<style>a{color:blue}</style>", None],
        "src/partials/b.html": ["<b>1</b>", JS % "/js/m.js", None],
        PUB + "css/main.css": ["a{color:red}", None],
        PUB + "js/m.js": ["m=1;", "m=2;", None] if env.THOROUGH else ["m=1;", None],
    }, edit_distance=2)


def _js():
    return dict(name="js", files={
        PUB + "index.html": [page("", JS % "/js/a.js"), page("<script>import x from '/js/b.js'; x();</script>"), None],
        PUB + "js/a.js": ["import b from '/js/b.js';\nb();", "import '/js/c.js';", "1;", None],
        PUB + "js/b.js": ["import c from '/js/c.js';\nexport default c;", "export default 2;", None],
        PUB + "js/c.js": ["export default 3;", "export default 44;", None],
    }, edit_distance=3)


def _css():
    return dict(name="css", files={
        PUB + "css/main.css": [".u{a:b}", ".u{a:c}\n.u:hover{x:y}\n", ".u{background:url(/img/i.svg)}", None],
        PUB + "css/x.css": [".x{/*! PREPROCESSOR: import .u */}", ".x{d:e}", ".x{background:url(/img/i.svg)}", None],
        PUB + "css/y.css": [".y{/*! PREPROCESSOR: import .x FROM /css/x.css */}", ".y{background:url(data:image/svg+xml,a)}", None],
        PUB + "img/i.svg": ["<svg>1</svg>", "<svg>22</svg>", None],
    }, edit_distance=2)


def _files():
    return dict(name="files", files={
        PUB + "a": ["1", "22", None],
        PUB + "a.b/c.txt": ["x", None],
        PUB + "a.b/d": ["y", "zz", None],
        "src/partials/p.html": ["p", None],
        "src/other.txt": ["o", None],
    }, modes=[False])


def _shared():
    """Two stylesheets and two pages producing the same icon files / sharing outputs."""
    root = ":root{--col-p:#111;--icon-size-s:1rem}"
    root2 = ":root{--col-p:#222;--icon-size-s:1rem;--icon-size-l:2rem;}"
    cmd = "/*! PREPROCESSOR: icon tog p all-colors all-sizes */"
    return dict(name="shared", files={
        PUB + "css/main.css": [root, root2, ":root{}"],
        PUB + "css/a.css": [cmd, ".a{b:c}", None],
        PUB + "css/b.css": [cmd + ".z{y:x}", ".a{b:c}", None],
        PUB + "img/icons/tog.svg": ["<svg fill='#111'/>", "<svg fill='#111' a='b'/>"],
        PUB + "index.html": [page("", CSS % "/css/a.css"), page()],
    }, edit_distance=2, valid=lambda a: (PUB + "css/a.css" in a) or a[PUB + "index.html"] == page())


def _outline():
    s1 = "<script>a=1;</script>"
    s2 = "<script>a=2;</script>"
    st = "<style>a{b:c}</style>"
    return dict(name="outline", files={
        PUB + "index.html": [page(s1), page(s2 + s1), page(st), page()],
        PUB + "sub/index.html": [page(s1), page(T("/p.html")), None],
        PUB + "sub/other.html": [page(s2 + st), None],
        "src/partials/p.html": [s1, s2, "<i>"],
        PUB + "js/gen/own.js": ["own=1;", None],
    }, edit_distance=2 if env.THOROUGH else 1)


def _constants():
    return dict(name="constants", files={
        PUB + "js/constants.js": ["// c", "// dd", None],
        PUB + "js/main.js": ["import { API_URL } from '/js/constants.js'; API_URL;", "1;", None],
        PUB + "index.html": [page("", JS % "/js/main.js"), page()],
    }, modes=[False, True])


def _images():
    I1 = "<!--[IMAGE: /img/a.png 4 4]-->"
    I2 = "<!--[IMAGE: /img/a.png 3 2]-->"
    return dict(name="images", images=True, files={
        PUB + "img/a.png": [site.png(8, 8), site.png(6, 8, (1, 2, 3))],
        PUB + "index.html": [page(I1), page(I2), page(I1 + I2), page()],
        PUB + "b.html": [page(I1), page(T("/p.html")), None],
        "src/partials/p.html": [I1, I2],
    }, edit_distance=2)


def _glue():
    j = '{"k": {"path": "/img/a.png", "width": %d, "height": 4}}'
    return dict(name="glue", images=True, files={
        PUB + "img/a.png": [site.png(8, 8), site.png(6, 8, (1, 2, 3))],
        PUB + "js/x.images.json": [j % 4, j % 3, None],
        PUB + "js/use.js": ["import x from '/js/x.images.js'; x();", "1;"],
        PUB + "index.html": [page("", JS % "/js/use.js"), page("<!--[IMAGE: /img/a.png 4 4]-->")],
    }, edit_distance=2)


def _generated():
    """Sources which refer to files that other sources generate."""
    cmd = "/*! PREPROCESSOR: icon tog p all-colors all-sizes */"
    return dict(name="generated", files={
        PUB + "a.html": [page("<img src=/img/gen/css/d/1.svg>"), page("", CSS % "/css/e.css"), page()],
        PUB + "css/main.css": [":root{--col-p:#111;--icon-size-s:1rem}", ":root{--col-q:#111;--icon-size-s:1rem}"],
        PUB + "img/icons/tog.svg": ["<svg fill='#111'/>"],
        PUB + "css/d.css": [".y{background:url(data:image/svg+xml,a)}", cmd, ".y{}", None],
        PUB + "css/e.css": [".z{background:url(/img/gen/css/d/1.svg)}", ".z{background:url(/img/icons/tog/p.svg)}", cmd],
    }, edit_distance=2)


def _two_producers():
    """A stylesheet which refers to an icon that two others generate."""
    cmd = "/*! PREPROCESSOR: icon tog p all-colors all-sizes */"
    return dict(name="two_producers", files={
        PUB + "css/main.css": [":root{--col-p:#111;--icon-size-s:1rem}", ":root{--col-p:#222;--icon-size-s:1rem}"],
        PUB + "img/icons/tog.svg": ["<svg fill='#111'/>"],
        PUB + "css/a.css": [cmd, ".a{}"],
        PUB + "css/b.css": [cmd, ".b{}"],
        PUB + "css/e.css": [".z{background:url(/img/icons/tog/p.svg)}", ".z{}"],
    }, edit_distance=3)


def _settings():
    """The configuration is one of the files."""
    conf = lambda **kw: json.dumps(env.default_config(**dict(dict(images=images()), **kw)))

    def images(lo=10, hi=49, pref=3, step="1", maximum=2, **kw):
        return {"formats": {"png": {"exports": {"a": {"min_area_px2": lo, "max_area_px2": hi, "preference": pref, "formatter_kwargs": kw}}, "minimum_unit_size_bytes": 85000}},
                "default_format": "png", "maximum_resolution": maximum, "resolution_step": step}
    root = ":root{--col-primary:#111;--col-primary-dark:#222;--col-disabled:#333;--col-alt:#444;--icon-size-s:1rem}"
    variants = [conf(), conf(host="x.org"), conf(host=None), conf(images=images(9, 80)), conf(images=images(step="0.5")), conf(images=images(maximum=1)), conf(icons={"default_button": {"active_color": "alt"}}),
                conf(auto_generate_images_js_placeholders=False), conf(js_constants={"relpath": PUB + "js/k.js", "shared": {"A": 1}, "dev": {}, "prod": {}})]
    if env.THOROUGH:
        variants += [conf(images=images(None, None)), conf(images=images(compress_level=0)), conf(icons={"default_button": None}), conf(host="X.org"), conf(images=images(pref=4))]
    return dict(name="settings", images=True, files={
        "vanillaplusjs.json": variants,
        PUB + "index.html": [page("<!--[IMAGE: /img/a.png 5 4]-->", '<link rel="canonical"><meta property="og:url">')] + ([page("<!--[IMAGE: /img/a.png 5 4]-->")] if env.THOROUGH else []),
        PUB + "b.html": [page("", '<meta property="og:url" content="/q">'), page("<!--[IMAGE: /img/a.png 3 3]-->"), None],
        PUB + "css/main.css": [root + "a{/*! PREPROCESSOR: icon tog primary all-colors all-sizes */}"],
        PUB + "img/icons/tog.svg": ["<svg fill='#111'/>"],
        PUB + "img/a.png": [site.png(12, 10)],
        PUB + "js/x.images.json": ['{"k": {"path": "/img/a.png", "width": 5, "height": 4}}', None],
        PUB + "js/k.js": ["1;"],
    }, edit_distance=2)


def UNIVERSES(which):
    return [_settings(), _generated(), _two_producers(), _html(), _js(), _css(), _files(), _shared(), _outline(), _constants(), _images(), _glue()]
