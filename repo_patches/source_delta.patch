From 5e30ff6a934878a5b9bb70fcdfe036ddf6dd5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 01/71] fix: SOAPResponse keeps the http_status_code it is
 given

---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From c4d4b99e5e0f0c667f4427d5534c973084366a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:50 +0000
Subject: [PATCH 02/71] fix: plain text answers of the dispatcher are bytes, as
 WSGI requires

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..79bf2bd 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -174,7 +174,7 @@ class SOAPDispatcher:
         elif request_method == 'POST':
             return self.handle_soap_request(request)
         else:
-            return SOAPResponse('bad request', http_status_code=400, http_content='bad_request',
+            return SOAPResponse('bad request', http_status_code=400, http_content=b'bad_request',
                                 http_headers={'Content-Type': 'text/plain'})
 
     def handle_soap_request(self, request):
@@ -225,7 +225,7 @@ class SOAPDispatcher:
         try:
             xsd = self.xsds[qs['xsd'][0] or 'xsd']
         except KeyError:
-            response = SOAPResponse('not found', http_status_code=404, http_content='not_found',
+            response = SOAPResponse('not found', http_status_code=404, http_content=b'not_found',
                                     http_headers={'Content-Type': 'text/plain'})
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
-- 
2.43.0


From efd8c7bc61a24f5d55175bd31bece14c9c801c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 03/71] fix: answer when a middleware short-circuits or the
 method declares a class as output

---
 soapfish/soap_dispatch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 79bf2bd..1c3c020 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -197,13 +197,13 @@ class SOAPDispatcher:
             response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
             response.http_status_code = 500
         else:
-            tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
+            if request.method is not None and isinstance(request.method.output, str):
                 tagname = request.method.output
             else:
-                tagname = uncapitalize(response.content.__class__.__name__)
+                # no method: a middleware answered without calling the method.
+                tagname = uncapitalize(response.soap_body.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From 2c1bc63d5f1ae49ea8c39c171d92f514d6cdaa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 04/71] fix: xsd requests call the xsd-response hook

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 1c3c020..5b20f0f 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -230,7 +230,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From ac67e26a17e0916b4bcb9a70e6fdcea592852946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 05/71] fix: an empty SOAP body is a client fault; comments and
 PIs are not message content

---
 soapfish/soap11.py        | 8 ++++++--
 soapfish/soap_dispatch.py | 4 +++-
 soapfish/xsd.py           | 4 ++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..d267078 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -57,10 +57,14 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        content = self.content()
+        if content is None:
+            raise ValueError('Empty SOAP body')
+        return ContentType.parse_xmlelement(content)
 
     def content(self):
-        return self._xmlelement[0]
+        # the first child element, whatever comments precede it
+        return next(self._xmlelement.iterchildren('*'), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 5b20f0f..ac6e6ce 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -73,6 +73,8 @@ class SOAPDispatcher:
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
         if envelope.Body is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
+        if envelope.Body.content() is None:
+            raise SOAPError(SOAP.Code.CLIENT, 'Empty SOAP body')
         return envelope
 
     def _find_handler_for_request(self, request, body):
@@ -129,7 +131,7 @@ class SOAPDispatcher:
     def _validate_header(self, soap_header):
         if soap_header is None:
             return
-        for children in soap_header._xmlelement.getchildren():
+        for children in soap_header._xmlelement.iterchildren('*'):
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..9526de0 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -946,8 +946,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
-            return False
+        if not isinstance(xmlelement.tag, str):
+            return False  # comment, processing instruction, ...
         ns, tag = gettagns(xmlelement.tag)
         return tag == field._name or tag == field.tagname
 
-- 
2.43.0


From 23cff1c8e1542669455809e7c622396f498a8066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 06/71] fix: a fault message that XML cannot carry still yields
 a fault

---
 soapfish/soap_dispatch.py | 4 ++--
 soapfish/utils.py         | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index ac6e6ce..abc7a0b 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -8,7 +8,7 @@ from lxml import etree
 
 from . import py2wsdl, py2xsd, wsa
 from .core import SOAPError, SOAPRequest, SOAPResponse
-from .utils import uncapitalize, walk_schema_tree
+from .utils import uncapitalize, walk_schema_tree, xml_text
 
 __all__ = ['SOAPDispatcher']
 
@@ -196,7 +196,7 @@ class SOAPDispatcher:
 
         if isinstance(response.soap_body, SOAPError):
             error = response.soap_body
-            response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
+            response.http_content = SOAP.get_error_response(error.code, xml_text(error.message), header=response.soap_header)
             response.http_status_code = 500
         else:
             # self._validate_response(response.soap_body, tagname)
diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..86b83d6 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -191,6 +191,11 @@ def walk_schema_tree(schemas, callback, seen=None):
     return seen
 
 
+def xml_text(value):
+    """Return value as text with every character that XML 1.0 does not allow replaced by U+FFFD."""
+    return re.sub('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', str(value))
+
+
 def timezone_offset_to_string(offset):
     """
     Return a XSD-compatible string representation of a time zone UTC offset (timedelta).
-- 
2.43.0


From e2ad5a15b3637cad7429f248ef025be2d4037cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 07/71] fix: SOAP 1.1 finds the SOAPAction header of a WSGI
 environ

---
 soapfish/soap11.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index d267078..26504c2 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -12,6 +12,8 @@ NAME = 'soap11'
 def determine_soap_action(request):
     if request.environ.get('SOAPACTION'):
         return request.environ.get('SOAPACTION').replace('"', '')
+    elif request.environ.get('HTTP_SOAPACTION'):  # how WSGI spells the header
+        return request.environ.get('HTTP_SOAPACTION').replace('"', '')
     elif request.environ.get('ACTION'):
         return request.environ.get('ACTION').replace('"', '')
     else:
-- 
2.43.0


From 3c88d59e96441ee841d7b3739835e7de05d9fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 08/71] fix: Service(use_wsa=True) uses the WS-Addressing
 header that exists

---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From 2be743063be39f3093ee3967ecf451d9ab878eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 09/71] fix: objects that use a group do not share its lists

---
 soapfish/xsd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9526de0..a9c4769 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,7 +27,6 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
-import copy
 import decimal
 import enum
 import functools
@@ -720,7 +719,7 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        return self._type.__class__()  # a fresh one: a copy would share the lists of the type
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-- 
2.43.0


From a871b82892319782019624d1b3c31937c15bd3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 10/71] fix: Document.parsexml returns a document instead of
 writing on the class

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a9c4769..b655eff 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1053,7 +1053,9 @@ class Document(ComplexType):
     def parsexml(cls, xml):
         field = cls._meta.fields[0]  # The only field.
         xmlelement = etree.fromstring(xml)
-        field.parse(cls, field._name, xmlelement)
+        instance = cls()
+        field.parse(instance, field._name, xmlelement)
+        return instance
 
 
 class List(SimpleType):
-- 
2.43.0


From c43318609790876577b22f0201b3fe636d28742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 11/71] fix: services may have several schemas, and imports
 without a location

---
 soapfish/py2xsd.py        | 11 ++++++++++-
 soapfish/soap_dispatch.py |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..975dffd 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -247,7 +247,16 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
+    if len(schemas) == 1:
+        schema_xml = etree.tostring(generate_xsd(schemas[0]))
+    else:
+        # a schema document has one root: combine several schemas by importing them.
+        schema_root = etree.Element('{%s}schema' % ns.xsd, nsmap={'xsd': ns.xsd})
+        for n, schema in enumerate(schemas):
+            location = f'soapfish:{n}'
+            resolver.lookup[location] = schema
+            etree.SubElement(schema_root, '{%s}import' % ns.xsd, namespace=schema.targetNamespace, schemaLocation=location)
+        schema_xml = etree.tostring(schema_root)
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index abc7a0b..e3ce08e 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -235,7 +235,7 @@ class SOAPDispatcher:
         return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
-        for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
+        for e in element.xpath('//xsd:import[@schemaLocation]|//xsd:include[@schemaLocation]', namespaces=element.nsmap):
             e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
 
     def _call_hook(self, name, **kw):
-- 
2.43.0


From 046711f2dd51f4faa22c23529b4bb1d902dacffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 12/71] fix: the Django environ wrapper finds keys such as
 wsgi.url_scheme

---
 soapfish/django_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 3b413cc..b70e09c 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -9,8 +9,8 @@ class DjangoEnvironWrapper:
         self.environ = environ
 
     def get(self, name, default=None):
-        name = name.replace('-', '_').upper()
-        for key in (name, 'HTTP_' + name):
+        header = name.replace('-', '_').upper()
+        for key in (name, header, 'HTTP_' + header):
             if key in self.environ:
                 return self.environ[key]
         return default
-- 
2.43.0


From f6c27b97d6aab575e67183c1ea3bab55e9e49f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 13/71] fix: schema locations with placeholders can be fetched;
 the host is escaped in published documents

---
 soapfish/soap_dispatch.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index e3ce08e..dfa3699 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -3,6 +3,7 @@ import logging
 import re
 import string
 from urllib.parse import parse_qs
+from xml.sax.saxutils import escape
 
 from lxml import etree
 
@@ -212,11 +213,7 @@ class SOAPDispatcher:
 
     def handle_wsdl_request(self, request):
         request = self._call_hook('wsdl-request', dispatcher=self, request=request)
-        scheme = request.environ.get('X_FORWARDED_PROTO', request.environ.get('wsgi.url_scheme', 'http'))
-        host = request.environ.get('HTTP_HOST')
-        wsdl = self.wsdl
-        if scheme and host:
-            wsdl = string.Template(wsdl.decode()).safe_substitute(scheme=scheme, host=host).encode()
+        wsdl = self._substitute(request, self.wsdl)
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
         return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
 
@@ -224,8 +221,10 @@ class SOAPDispatcher:
         request = self._call_hook('xsd-request', dispatcher=self, request=request)
         qs = request.environ.get('QUERY_STRING')
         qs = parse_qs(qs, keep_blank_values=True)
+        # the locations in a published document come with the placeholders substituted.
+        xsds = {self._substitute(request, key.encode()).decode(): xsd for key, xsd in self.xsds.items() if key is not None}
         try:
-            xsd = self.xsds[qs['xsd'][0] or 'xsd']
+            xsd = self._substitute(request, xsds[qs['xsd'][0] or 'xsd'])
         except KeyError:
             response = SOAPResponse('not found', http_status_code=404, http_content=b'not_found',
                                     http_headers={'Content-Type': 'text/plain'})
@@ -234,6 +233,17 @@ class SOAPDispatcher:
 
         return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
+    def _substitute(self, request, document):
+        get = request.environ.get
+        scheme = get('X_FORWARDED_PROTO') or get('HTTP_X_FORWARDED_PROTO') or get('wsgi.url_scheme', 'http')
+        host = get('HTTP_HOST')
+        if scheme and host:
+            quote = lambda x: escape(xml_text(x), {'"': '&quot;'}).encode('ascii', 'xmlcharrefreplace').decode()
+            # latin-1 keeps the bytes of a document in any other encoding as they are.
+            template = string.Template(document.decode('latin-1'))
+            document = template.safe_substitute(scheme=quote(scheme), host=quote(host)).encode('latin-1')
+        return document
+
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import[@schemaLocation]|//xsd:include[@schemaLocation]', namespaces=element.nsmap):
             e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
-- 
2.43.0


From acca1530ba82931c0502bf3060d90b8ed40cf449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 14/71] fix: relative locations resolve against the document
 that contains them, remote ones too

---
 soapfish/utils.py  | 9 +++++----
 soapfish/xsd2py.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 86b83d6..bcb5f3b 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -5,7 +5,7 @@ import logging
 import os
 import re
 from datetime import datetime, timedelta, timezone
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse, urlunparse
 
 import requests
 from jinja2 import Environment, PackageLoader
@@ -17,10 +17,11 @@ logger = logging.getLogger('soapfish')
 
 # --- File Functions ----------------------------------------------------------
 def resolve_location(path, cwd):
-    if '://' in path:
-        location = path
+    if '://' in path or '://' in cwd:
+        path = location = urljoin(f'{cwd}/', path)
+        cwd = path.rpartition('/')[0]
     else:
-        path = os.path.join(cwd, path)
+        path = os.path.normpath(os.path.join(cwd, path))
         location = os.path.relpath(path, cwd)
         cwd = os.path.dirname(path)
     return path, cwd, location
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..daa59b6 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -29,7 +29,7 @@ def rewrite_paths(schema, cwd, base_path):
             continue
         elif '://' in cwd:
             # remote files must handle paths as url.
-            i.schemaLocation = urljoin(cwd, i.schemaLocation)
+            i.schemaLocation = urljoin(f'{cwd}/', i.schemaLocation)
         else:
             # local files should handle relative paths.
             path = os.path.normpath(os.path.join(cwd, i.schemaLocation))
-- 
2.43.0


From 667bfe7549d541752ecfa39b97196bfc689d7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:54 +0000
Subject: [PATCH 15/71] fix: each imported WSDL resolves its own imports
 against its own directory

---
 soapfish/wsdl2py.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..a0c28f5 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -32,7 +32,7 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
+def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
         seen = set()
@@ -41,8 +41,11 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
     if seen is None:
         seen = set()
 
+    if base_path is None:
+        base_path = cwd
+
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, import_cwd, _ = resolve_location(i.location, cwd)
 
         if path in seen:
             continue
@@ -55,9 +58,11 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
         xsd_namespaces.update(find_xsd_namespaces(xml))
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
+        for schema in imported.types.schemas if imported.types else []:
+            rewrite_paths(schema, import_cwd, base_path)
 
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen, base_path=base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
-- 
2.43.0


From bf74360ade0251f168ba4d490080f44e09fa3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 16/71] fix: an HTTP error while retrieving a document is an
 error, not the document

---
 soapfish/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index bcb5f3b..3b28f06 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -30,7 +30,9 @@ def resolve_location(path, cwd):
 def open_document(path):
     if '://' in path:
         logger.info('Opening remote document: %s', path)
-        return requests.get(path).content
+        response = requests.get(path)
+        response.raise_for_status()
+        return response.content
     else:
         logger.info('Opening local document: %s', path)
         with open(path, 'rb') as f:
-- 
2.43.0


From 98f073d7bc6caadd3c0bb203e9ac400456edb6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 17/71] fix: command line tools fail when their output cannot
 be written

---
 soapfish/py2wsdl.py | 1 +
 soapfish/py2xsd.py  | 1 +
 soapfish/wsdl2py.py | 1 +
 soapfish/xsd2py.py  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..8c43b32 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -141,6 +141,7 @@ def main(argv=None):
     tree = generate_wsdl(module.SERVICE)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
+    opt.output.flush()  # a failure to write has to surface here
 
     return 0
 
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 975dffd..2dc22a8 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -282,6 +282,7 @@ def main(argv=None):
     tree = generate_xsd(module.Schema)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
+    opt.output.flush()  # a failure to write has to surface here
 
     return 0
 
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index a0c28f5..a204864 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -140,6 +140,7 @@ def main(argv=None):
     code = generate_code_from_wsdl(xml, opt.target, opt.use_wsa, cwd=cwd)
 
     opt.output.write(code.strip())
+    opt.output.flush()  # a failure to write has to surface here
 
     return 0
 
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index daa59b6..e54051d 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -176,6 +176,7 @@ def main(argv=None):
     code = generate_code_from_xsd(xml, encoding='utf-8', cwd=cwd)
 
     opt.output.write(code.strip())
+    opt.output.flush()  # a failure to write has to surface here
 
     return 0
 
-- 
2.43.0


From 68129dfd52879cdd2776e47813f77a9ccb2ea6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 18/71] fix: every lexical form of xsd:boolean is understood

---
 soapfish/xsd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index b655eff..2cf56f9 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -211,9 +211,10 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        value = value.strip() if isinstance(value, str) else value
+        if value in ('false', '0'):
             return False
-        elif value == 'true':
+        elif value in ('true', '1'):
             return True
         elif value == 'nil' or value is None:
             return None
-- 
2.43.0


From efbcdbe79bd0c51b76aefe2a84f581d9d0dff2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 19/71] fix: a comment inside the text of an element does not
 cut its value

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2cf56f9..9281e02 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -108,7 +108,9 @@ class SimpleType(Type):
         parent.text = self.xmlvalue(value)
 
     def parse_xmlelement(self, xmlelement):
-        return self.pythonvalue(xmlelement.text)
+        # the text may come in pieces, around comments and processing instructions
+        text = [xmlelement.text] + [child.tail for child in xmlelement if not isinstance(child.tag, str)]
+        return self.pythonvalue(''.join(filter(None, text)) or None)
 
     def xmlvalue(self, value):
         raise NotImplementedError
-- 
2.43.0


From e1f477bddd476663e22e49642863dc43c7b6537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 20/71] fix: white space around dates and times is not part of
 the value

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9281e02..7e5ed64 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -260,7 +260,7 @@ class Date(SimpleType):
         if not isinstance(value, str):
             raise ValueError(f'Expected a string, not {value!r}')
 
-        match = self.YEAR_MONTH_DAY_REGEX.match(value)
+        match = self.YEAR_MONTH_DAY_REGEX.match(value.strip())
         if match is None:
             raise ValueError(f'Unable to parse date string {value!r}')
         year = int(match.group('year'))
@@ -304,7 +304,7 @@ class DateTime(SimpleType):
         return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(value))
 
     def pythonvalue(self, value):
-        return None if value is None or value == 'nil' else iso8601.parse_date(value)
+        return None if value is None or value == 'nil' else iso8601.parse_date(value.strip())
 
 
 class Time(SimpleType):
@@ -335,7 +335,7 @@ class Time(SimpleType):
     def _parse(value):
         # Horrible hacky approach to implement this quickly:
         try:
-            dt = iso8601.parse_date('1900-01-01T' + value)
+            dt = iso8601.parse_date('1900-01-01T' + value.strip())
         except Exception as e:
             raise ValueError(str(e)) from e
         else:
-- 
2.43.0


From e00ddb6cc4bf3c73387893dd036a4f7cbd000c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:20 +0000
Subject: [PATCH 21/71] fix: attributes are read and described under their
 tagname

---
 soapfish/py2xsd.py | 2 +-
 soapfish/xsd.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 2dc22a8..8fd5580 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -36,7 +36,7 @@ def get_xsd_type(_type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7e5ed64..f784e6c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -687,7 +687,7 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
         if xmlvalue is None:
             xmlvalue = self.default
         value = self._type.pythonvalue(xmlvalue)
-- 
2.43.0


From 07402df250f89ba2fc2bba9c0e6d36373bc064ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 22/71] fix: xsi:nil is a boolean, for elements and lists alike

---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f784e6c..f2c1618 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -535,6 +535,10 @@ def import_type(type_name):
     return getattr(module, name)
 
 
+def is_nil(xmlelement):
+    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip() in ('true', '1')
+
+
 class Element:
     """
     Basic building block, represents an XML element that can appear 0 or 1 times that should be rendered as subelement.
@@ -622,7 +626,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -819,7 +823,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From 3eaae4bc3c2efca7f2d05695d87a99aed52bcb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 23/71] fix: types with attributes can be described in a schema

---
 soapfish/xsdspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From ce5bfd8ec361d20f4198330fa364c822e135c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 24/71] fix: dates and times keep their fraction of a second
 and a four digit year

---
 soapfish/xsd.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f2c1618..5ad19d8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -248,7 +248,8 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        # not strftime: it does not pad years before 1000
+        timestring_without_tz = f'{value.year:04d}-{value.month:02d}-{value.day:02d}'
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
@@ -297,7 +298,7 @@ class DateTime(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
+        timestring_without_tz = value.replace(tzinfo=None).isoformat()
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
@@ -322,7 +323,7 @@ class Time(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%H:%M:%S')
+        timestring_without_tz = value.replace(tzinfo=None).isoformat()
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
-- 
2.43.0


From 84ea94f37b83bd92d459b0e57d3b7a0b35b6f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 25/71] fix: length facets and bounds of zero are part of the
 described type

---
 soapfish/py2xsd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 8fd5580..4d64035 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -70,20 +70,24 @@ def create_xsd_element(element):
         if hasattr(_type, 'pattern') and _type.pattern:
             xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
 
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
+        if getattr(_type, 'minInclusive', None) is not None:
             xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
 
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
+        if getattr(_type, 'minExclusive', None) is not None:
             xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
 
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
+        if getattr(_type, 'maxExclusive', None) is not None:
             xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
 
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
+        if getattr(_type, 'maxInclusive', None) is not None:
             xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
 
         if hasattr(_type, 'totalDigits') and _type.totalDigits:
             xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+
+        for facet in ('length', 'minLength', 'maxLength'):
+            if getattr(_type, facet, None):
+                setattr(xsd_element.simpleType.restriction, facet, xsdspec.RestrictionValue(value=str(getattr(_type, facet))))
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
-- 
2.43.0


From 52bb4f99482a5a9e12c4e61fcbfb51a9e6189c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 26/71] fix: generated code for inline types is valid with
 whiteSpace and keyword names

---
 soapfish/templates/lib.jinja2 | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..e5991e9 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -146,7 +146,6 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.enumerations -%}
     enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
     {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
@@ -157,7 +156,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
     {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
     {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace='{{ element.simpleType.restriction.whiteSpace.value }}',{% endif %}){% if element.name in keywords %}, tagname='{{ element.name }}'{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From cf49e4c79b56a5846b796addb020429f27765fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 27/71] fix: input that cannot be represented is a client fault

---
 soapfish/soap_dispatch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index dfa3699..e4b1b7c 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -163,8 +163,11 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except ValueError as e:  # e.g. a date which Python can not represent
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
-- 
2.43.0


From 034a1a1f462da9c3793470fe7aeec26b61e639e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 28/71] fix: content of header blocks follows the
 elementFormDefault of their schema

---
 soapfish/soap11.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 26504c2..25f4f66 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -45,7 +45,13 @@ class Header(xsd.ComplexType):
         return ContentType.parse_xmlelement(self._xmlelement)
 
     def render(self, parent, instance, namespace=None, elementFormDefault=None):
-        return super().render(parent, instance, instance.SCHEMA.targetNamespace, elementFormDefault)
+        schema = instance.SCHEMA
+        if schema.elementFormDefault == xsd.ElementFormDefault.QUALIFIED:
+            return super().render(parent, instance, schema.targetNamespace, elementFormDefault)
+        # A header block is a global element with a qualified name, only what is inside of it is not qualified.
+        for field in instance._meta.all:
+            tagname = f'{{{field.namespace or namespace}}}{field.tagname or field._name}'
+            field.render(parent, tagname, getattr(instance, field._name), schema.targetNamespace, schema.elementFormDefault)
 
 
 class Fault(xsd.ComplexType):
-- 
2.43.0


From cf261acbf19c9173290fcb6ca9a532a182c844ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 29/71] fix: requests without SOAP action reach methods whose
 input is a class

---
 soapfish/soap_dispatch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index e4b1b7c..0715bc2 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -95,16 +95,19 @@ class SOAPDispatcher:
         else:
             logger.debug('Finding handler using root tag of the SOAP body: %s', root_tag)
             try:
-                return next(m for m in self.service.methods if m.input == root_tag)
+                return next(m for m in self.service.methods if self._input_tagname(m) == root_tag)
             except StopIteration:
                 pass  # fall through and check for substitution group element
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
                 e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
+                return next(m for m in self.service.methods if self._input_tagname(m) == e.substitutionGroup.split(':')[-1])
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
+    def _input_tagname(self, method):
+        return method.input if isinstance(method.input, str) else uncapitalize(method.input.__name__)
+
     def _parse_header(self, handler, soap_header):
         # TODO return soap fault if header is required but missing in the input
         if soap_header is None:
-- 
2.43.0


From a7581b157468b350d33e31a5f99640a1b6991959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 30/71] fix: find substitution group members in imported
 schemas, refuse elements which are no input

---
 soapfish/soap_dispatch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 0715bc2..ff2e3d0 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -100,8 +100,9 @@ class SOAPDispatcher:
                 pass  # fall through and check for substitution group element
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
-                e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                return next(m for m in self.service.methods if self._input_tagname(m) == e.substitutionGroup.split(':')[-1])
+                e = self.service.find_element_by_name(root_tag)
+                head = e.substitutionGroup.split(':')[-1] if e is not None and e.substitutionGroup else None
+                return next(m for m in self.service.methods if self._input_tagname(m) == head)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
-- 
2.43.0


From 2aa59c2b18ad6efc1a713b3b749625b8c6d59cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 31/71] fix: threads may evaluate the type of a field at the
 same time

---
 soapfish/xsd.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5ad19d8..82f9def 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -578,12 +578,11 @@ class Element:
 
     def _evaluate_type(self):
         if self._type is None:
-            if isinstance(self._passed_type, str):
-                self._passed_type = import_type(self._passed_type)
-            if isinstance(self._passed_type, Type):
-                self._type = self._passed_type
-            else:
-                self._type = self._passed_type()
+            # other threads may be doing the same
+            passed_type = self._passed_type
+            if isinstance(passed_type, str):
+                self._passed_type = passed_type = import_type(passed_type)
+            self._type = passed_type if isinstance(passed_type, Type) else passed_type()
 
     def empty_value(self):
         """
-- 
2.43.0


From c67b314f3d631fb5c5357cde826ee92a5eca6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 32/71] fix: content of a header block follows the schema of
 its own type

---
 soapfish/soap11.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 25f4f66..fa4c388 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -45,13 +45,14 @@ class Header(xsd.ComplexType):
         return ContentType.parse_xmlelement(self._xmlelement)
 
     def render(self, parent, instance, namespace=None, elementFormDefault=None):
-        schema = instance.SCHEMA
-        if schema.elementFormDefault == xsd.ElementFormDefault.QUALIFIED:
-            return super().render(parent, instance, schema.targetNamespace, elementFormDefault)
-        # A header block is a global element with a qualified name, only what is inside of it is not qualified.
+        # A header block is a global element with a qualified name, what is inside of it follows the schema of its type.
         for field in instance._meta.all:
-            tagname = f'{{{field.namespace or namespace}}}{field.tagname or field._name}'
-            field.render(parent, tagname, getattr(instance, field._name), schema.targetNamespace, schema.elementFormDefault)
+            value = getattr(instance, field._name)
+            schema = getattr(value, 'SCHEMA', None) or instance.SCHEMA
+            tagname = field.tagname or field._name
+            if schema.elementFormDefault == xsd.ElementFormDefault.UNQUALIFIED:
+                tagname = f'{{{field.namespace or namespace}}}{tagname}'
+            field.render(parent, tagname, value, namespace, schema.elementFormDefault)
 
 
 class Fault(xsd.ComplexType):
-- 
2.43.0


From 2d43bfdbb789026f52fb49ea86dc9c6787ae14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 33/71] fix: types may contain themselves

---
 soapfish/py2xsd.py | 1 +
 soapfish/xsd.py    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 4d64035..edcb024 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -38,6 +38,7 @@ def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
+    attribute._evaluate_type()
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
 
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 82f9def..3dd78d2 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -874,7 +874,12 @@ class ComplexType(Type, metaclass=Complex_PythonType):
     def __new__(cls, *args, **kwargs):
         instance = super().__new__(cls)
         for field in instance._meta.all:
-            setattr(instance, field._name, field.empty_value())
+            value = field.empty_value()
+            if value is None:
+                # nothing to check: the type of the field, which may be this very class, is not needed yet
+                object.__setattr__(instance, field._name, None)
+            else:
+                setattr(instance, field._name, value)
         return instance
 
     def __init__(self, **kwargs):
-- 
2.43.0


From 8f725bb2ea902e1569cbc58256263dc8bc60c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 34/71] fix: references to published schemas quote the location

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index ff2e3d0..cf58f56 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -2,7 +2,7 @@ import functools
 import logging
 import re
 import string
-from urllib.parse import parse_qs
+from urllib.parse import parse_qs, quote as url_quote
 from xml.sax.saxutils import escape
 
 from lxml import etree
@@ -253,7 +253,7 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import[@schemaLocation]|//xsd:include[@schemaLocation]', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            e.attrib['schemaLocation'] = '?xsd=%s' % url_quote(e.attrib['schemaLocation'], safe="/:?$@!*'(),=~{}")
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
-- 
2.43.0


From 521b00f54f03520fde730b143dfcc9175fbdc37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 35/71] fix: publishing a description keeps every $ that is not
 a placeholder

---
 soapfish/soap_dispatch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index cf58f56..5e1f33f 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -1,7 +1,6 @@
 import functools
 import logging
 import re
-import string
 from urllib.parse import parse_qs, quote as url_quote
 from xml.sax.saxutils import escape
 
@@ -246,9 +245,10 @@ class SOAPDispatcher:
         host = get('HTTP_HOST')
         if scheme and host:
             quote = lambda x: escape(xml_text(x), {'"': '&quot;'}).encode('ascii', 'xmlcharrefreplace').decode()
-            # latin-1 keeps the bytes of a document in any other encoding as they are.
-            template = string.Template(document.decode('latin-1'))
-            document = template.safe_substitute(scheme=quote(scheme), host=quote(host)).encode('latin-1')
+            values = {'scheme': quote(scheme), 'host': quote(host)}
+            # latin-1 keeps the bytes of a document in any other encoding as they are; so does every other $, a schema may hold some.
+            document = re.sub(r'\$(?:\{(scheme|host)\}|(scheme|host)(?![A-Za-z0-9_]))', lambda m: values[m[1] or m[2]],
+                              document.decode('latin-1')).encode('latin-1')
         return document
 
     def _rewrite_locations(self, element):
-- 
2.43.0


From ffed37fe170823213d2d955089319099cd07abae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 36/71] fix: the Flask dispatcher reads the message whatever
 content type it is labelled with

---
 soapfish/flask_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/flask_.py b/soapfish/flask_.py
index 3c6894f..9480883 100644
--- a/soapfish/flask_.py
+++ b/soapfish/flask_.py
@@ -8,7 +8,7 @@ def flask_dispatcher(service, **dispatcher_kwargs):
     from flask import request, Response
 
     def flask_dispatch():
-        soap_request = SOAPRequest(request.environ, request.data)
+        soap_request = SOAPRequest(request.environ, request.get_data())
         soap_request._original_request = request
         soap_dispatcher = SOAPDispatcher(service, **dispatcher_kwargs)
         soap_response = soap_dispatcher.dispatch(soap_request)
-- 
2.43.0


From 866c18c932ebe4b816011afc53e16a1a0591c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 37/71] fix: a document that is no schema or WSDL is an error,
 not an empty one

---
 soapfish/utils.py   | 8 ++++++++
 soapfish/wsdl2py.py | 5 ++++-
 soapfish/xsd2py.py  | 5 +++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 3b28f06..41538bb 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -9,6 +9,7 @@ from urllib.parse import urljoin, urlparse, urlunparse
 
 import requests
 from jinja2 import Environment, PackageLoader
+from lxml import etree
 
 from . import namespaces as ns
 
@@ -39,6 +40,13 @@ def open_document(path):
             return f.read()
 
 
+def check_root(xml, name, namespaces):
+    """Raise ValueError unless the document is what it should be (and not, say, the page of a proxy)."""
+    root = etree.QName(xml)
+    if root.localname != name or root.namespace not in namespaces:
+        raise ValueError(f"Expected a document with the root element '{name}', but found '{root.text}'.")
+
+
 # --- Template Filters --------------------------------------------------------
 def remove_namespace(qname):
     return qname.split(':')[-1] if qname else None
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index a204864..2c82004 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -8,8 +8,9 @@ import sys
 
 from lxml import etree
 
+from . import namespaces as ns
 from .soap import SOAPVersion
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
 from .xsd2py import rewrite_paths, schema_to_py
 
@@ -54,6 +55,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_p
 
         xml = open_document(path)
         xml = etree.fromstring(xml)
+        check_root(xml, 'definitions', (ns.wsdl,))
 
         xsd_namespaces.update(find_xsd_namespaces(xml))
 
@@ -83,6 +85,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     if cwd is None:
         cwd = os.getcwd()
 
+    check_root(xml, 'definitions', (ns.wsdl,))
     xsd_namespaces = find_xsd_namespaces(xml)
 
     soap_version = SOAPVersion.get_version_from_xml(xml)
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index e54051d..8c4cac6 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -10,8 +10,8 @@ from urllib.parse import urljoin
 
 from lxml import etree
 
-from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from . import namespaces as ns, xsdspec
+from .utils import check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 
 logger = logging.getLogger('soapfish')
 
@@ -62,6 +62,7 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     if known_paths is None:
         known_paths = []
 
+    check_root(xml, 'schema', (ns.xsd, ns.xsd2000))
     xsd_namespaces = find_xsd_namespaces(xml)
 
     schema = xsdspec.Schema.parse_xmlelement(xml)
-- 
2.43.0


From 207086fbfd67208315002e51cfbfc714ba260a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 38/71] fix: an included schema without a target namespace
 takes that of the including one

---
 soapfish/xsd2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 8c4cac6..c3907f9 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -72,7 +72,7 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
+                        location, parent_namespace, cwd=cwd, base_path=base_path,
                         standalone=standalone)
 
     return code.encode(encoding) if encoding else code
-- 
2.43.0


From 952dc37afa5099fac000b7e91f52ac6a59791d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 39/71] fix: the generators load a module under a name of its
 own

---
 soapfish/py2wsdl.py |  5 ++---
 soapfish/py2xsd.py  |  5 ++---
 soapfish/utils.py   | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 8c43b32..d038078 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -3,14 +3,13 @@
 import argparse
 import logging
 import sys
-from importlib.machinery import SourceFileLoader
 
 from lxml import etree
 
 from . import namespaces as ns, xsd
 from .py2xsd import generate_xsdspec
 from .soap import SOAP_HTTP_Transport
-from .utils import uncapitalize
+from .utils import load_module, uncapitalize
 from .wsdl import get_wsdl_classes
 
 logger = logging.getLogger('soapfish')
@@ -137,7 +136,7 @@ def main(argv=None):
 
     logger.info('Generating WSDL for Python module: %s', opt.module)
 
-    module = SourceFileLoader('', opt.module).load_module()
+    module = load_module(opt.module)
     tree = generate_wsdl(module.SERVICE)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index edcb024..d88cf8a 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -4,12 +4,11 @@ import argparse
 import inspect
 import logging
 import sys
-from importlib.machinery import SourceFileLoader
 
 from lxml import etree
 
 from . import namespaces as ns, xsd, xsdspec
-from .utils import uncapitalize, walk_schema_tree
+from .utils import load_module, uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
@@ -283,7 +282,7 @@ def main(argv=None):
     opt = parser.parse_args(sys.argv[1:] if argv is None else argv)
 
     logger.info('Generating XSD for Python module: %s', opt.module)
-    module = SourceFileLoader('', opt.module).load_module()
+    module = load_module(opt.module)
     tree = generate_xsd(module.Schema)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 41538bb..21d9486 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -4,6 +4,8 @@ import keyword
 import logging
 import os
 import re
+import sys
+import types
 from datetime import datetime, timedelta, timezone
 from urllib.parse import urljoin, urlparse, urlunparse
 
@@ -15,6 +17,8 @@ from . import namespaces as ns
 
 logger = logging.getLogger('soapfish')
 
+_module_numbers = itertools.count(1)
+
 
 # --- File Functions ----------------------------------------------------------
 def resolve_location(path, cwd):
@@ -40,6 +44,16 @@ def open_document(path):
             return f.read()
 
 
+def load_module(path):
+    """Execute a Python file as a module of its own; by its name the types it defines find one another."""
+    module = types.ModuleType(f'soapfish_module_{next(_module_numbers)}')
+    module.__file__ = path
+    sys.modules[module.__name__] = module
+    with open(path, 'rb') as f:
+        exec(compile(f.read(), path, 'exec'), module.__dict__)
+    return module
+
+
 def check_root(xml, name, namespaces):
     """Raise ValueError unless the document is what it should be (and not, say, the page of a proxy)."""
     root = etree.QName(xml)
-- 
2.43.0


From 96eb9291e699fba090edca64bb9b5586f5109e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 40/71] fix: command line tools fail when their output is lost
 as it is closed

---
 soapfish/py2wsdl.py | 5 ++---
 soapfish/py2xsd.py  | 5 ++---
 soapfish/utils.py   | 8 ++++++++
 soapfish/wsdl2py.py | 7 ++++---
 soapfish/xsd2py.py  | 7 ++++---
 5 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index d038078..9eaa31e 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -9,7 +9,7 @@ from lxml import etree
 from . import namespaces as ns, xsd
 from .py2xsd import generate_xsdspec
 from .soap import SOAP_HTTP_Transport
-from .utils import load_module, uncapitalize
+from .utils import load_module, uncapitalize, write_output
 from .wsdl import get_wsdl_classes
 
 logger = logging.getLogger('soapfish')
@@ -139,8 +139,7 @@ def main(argv=None):
     module = load_module(opt.module)
     tree = generate_wsdl(module.SERVICE)
 
-    opt.output.write(etree.tostring(tree, pretty_print=True))
-    opt.output.flush()  # a failure to write has to surface here
+    write_output(opt.output, etree.tostring(tree, pretty_print=True))
 
     return 0
 
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index d88cf8a..4b249d2 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -8,7 +8,7 @@ import sys
 from lxml import etree
 
 from . import namespaces as ns, xsd, xsdspec
-from .utils import load_module, uncapitalize, walk_schema_tree
+from .utils import load_module, uncapitalize, walk_schema_tree, write_output
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
@@ -285,8 +285,7 @@ def main(argv=None):
     module = load_module(opt.module)
     tree = generate_xsd(module.Schema)
 
-    opt.output.write(etree.tostring(tree, pretty_print=True))
-    opt.output.flush()  # a failure to write has to surface here
+    write_output(opt.output, etree.tostring(tree, pretty_print=True))
 
     return 0
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 21d9486..2610bf8 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -54,6 +54,14 @@ def load_module(path):
     return module
 
 
+def write_output(output, data):
+    """Write a whole document; a failure to store it has to surface here, not after the program has returned."""
+    output.write(data)
+    output.flush()
+    if output is not getattr(sys.stdout, 'buffer', sys.stdout):
+        output.close()
+
+
 def check_root(xml, name, namespaces):
     """Raise ValueError unless the document is what it should be (and not, say, the page of a proxy)."""
     root = etree.QName(xml)
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 2c82004..53e4e4f 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -10,7 +10,9 @@ from lxml import etree
 
 from . import namespaces as ns
 from .soap import SOAPVersion
-from .utils import check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import (
+    check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location, write_output,
+)
 from .wsdl import get_wsdl_classes
 from .xsd2py import rewrite_paths, schema_to_py
 
@@ -142,8 +144,7 @@ def main(argv=None):
     cwd = os.path.dirname(cwd)
     code = generate_code_from_wsdl(xml, opt.target, opt.use_wsa, cwd=cwd)
 
-    opt.output.write(code.strip())
-    opt.output.flush()  # a failure to write has to surface here
+    write_output(opt.output, code.strip())
 
     return 0
 
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index c3907f9..6c5de5f 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -11,7 +11,9 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import namespaces as ns, xsdspec
-from .utils import check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import (
+    check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location, write_output,
+)
 
 logger = logging.getLogger('soapfish')
 
@@ -176,8 +178,7 @@ def main(argv=None):
     cwd = os.path.dirname(cwd)
     code = generate_code_from_xsd(xml, encoding='utf-8', cwd=cwd)
 
-    opt.output.write(code.strip())
-    opt.output.flush()  # a failure to write has to surface here
+    write_output(opt.output, code.strip())
 
     return 0
 
-- 
2.43.0


From 72f5e0d4b77d61143e66036994f0fd84b0f73bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 41/71] fix: schemas can be validated whatever characters their
 locations contain

---
 soapfish/py2xsd.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 4b249d2..ee23737 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -221,22 +221,28 @@ def schema_validator(schemas):
 
     The method takes care of resolving imported (soapfish) schemas but prevents any unwanted network access.
     """
-    class SchemaResolver(etree.Resolver):
+    # libxml2 rewrites locations (escapes, resolves them) before it asks for a document: name all of them in a way it leaves alone.
+    lookup = walk_schema_tree(schemas, lambda x: x)
+    names = {location: f'soapfish:{n}' for n, location in enumerate(lookup)}
+    documents = {names[location]: schema for location, schema in lookup.items()}
+
+    def render(schema):
+        root = generate_xsd(schema)
+        for e in root.iter('{%s}import' % ns.xsd, '{%s}include' % ns.xsd):
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = names[e.attrib['schemaLocation']]
+        return etree.tostring(root)
 
-        def __init__(self, schemas, *args, **kwargs):
-            super().__init__(*args, **kwargs)
-            self.lookup = walk_schema_tree(schemas, lambda x: x)
+    class SchemaResolver(etree.Resolver):
 
         def resolve(self, url, id_, context):
-            if url in self.lookup:
-                schema_string = etree.tostring(generate_xsd(self.lookup[url]))
-                return self.resolve_string(schema_string, context)
+            if url in documents:
+                return self.resolve_string(render(documents[url]), context)
             # prevent unwanted network access
             raise ValueError(f'Cannot resolve {url!r} - not a known soapfish schema')
 
     parser = etree.XMLParser(load_dtd=True)
-    resolver = SchemaResolver(schemas)
-    parser.resolvers.add(resolver)
+    parser.resolvers.add(SchemaResolver())
 
     # unfortunately we have to parse the whole schema from string so we are
     # able to configure a custom resolver just for this instance. This seems to
@@ -252,13 +258,13 @@ def schema_validator(schemas):
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
     if len(schemas) == 1:
-        schema_xml = etree.tostring(generate_xsd(schemas[0]))
+        schema_xml = render(schemas[0])
     else:
         # a schema document has one root: combine several schemas by importing them.
         schema_root = etree.Element('{%s}schema' % ns.xsd, nsmap={'xsd': ns.xsd})
         for n, schema in enumerate(schemas):
-            location = f'soapfish:{n}'
-            resolver.lookup[location] = schema
+            location = f'soapfish:{n + len(names)}'
+            documents[location] = schema
             etree.SubElement(schema_root, '{%s}import' % ns.xsd, namespace=schema.targetNamespace, schemaLocation=location)
         schema_xml = etree.tostring(schema_root)
     schema_element = etree.fromstring(schema_xml, parser)
-- 
2.43.0


From 2d18f33a22aef19c6d0588f1c913f3a8806ac876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 42/71] fix: locations in a remote document with a query
 resolve against its URL

---
 soapfish/utils.py   | 13 +++++++++++--
 soapfish/wsdl2py.py |  6 +++---
 soapfish/xsd2py.py  | 15 ++++++++-------
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 2610bf8..3257d5c 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -21,10 +21,19 @@ _module_numbers = itertools.count(1)
 
 
 # --- File Functions ----------------------------------------------------------
+def base_location(url):
+    """Return what locations in a remote document are relative to: its directory, or the URL itself if that has a query."""
+    return url if '?' in url else url.rpartition('/')[0]
+
+
+def join_location(cwd, path):
+    return urljoin(cwd if '?' in cwd else f'{cwd}/', path)
+
+
 def resolve_location(path, cwd):
     if '://' in path or '://' in cwd:
-        path = location = urljoin(f'{cwd}/', path)
-        cwd = path.rpartition('/')[0]
+        path = location = join_location(cwd, path)
+        cwd = base_location(path)
     else:
         path = os.path.normpath(os.path.join(cwd, path))
         location = os.path.relpath(path, cwd)
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 53e4e4f..39c3414 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,8 @@ from lxml import etree
 from . import namespaces as ns
 from .soap import SOAPVersion
 from .utils import (
-    check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location, write_output,
+    base_location, check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location,
+    write_output,
 )
 from .wsdl import get_wsdl_classes
 from .xsd2py import rewrite_paths, schema_to_py
@@ -140,8 +141,7 @@ def main(argv=None):
 
     logger.info('Generating %s code for WSDL document: %s', opt.target, opt.wsdl)
     xml = stdin.read() if opt.wsdl == '-' else open_document(opt.wsdl)
-    cwd = opt.wsdl if '://' in opt.wsdl else os.path.abspath(opt.wsdl)
-    cwd = os.path.dirname(cwd)
+    cwd = base_location(opt.wsdl) if '://' in opt.wsdl else os.path.dirname(os.path.abspath(opt.wsdl))
     code = generate_code_from_wsdl(xml, opt.target, opt.use_wsa, cwd=cwd)
 
     write_output(opt.output, code.strip())
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 6c5de5f..bcad7f0 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -6,13 +6,13 @@ import itertools
 import logging
 import os
 import sys
-from urllib.parse import urljoin
 
 from lxml import etree
 
 from . import namespaces as ns, xsdspec
 from .utils import (
-    check_root, find_xsd_namespaces, get_rendering_environment, open_document, resolve_location, write_output,
+    base_location, check_root, find_xsd_namespaces, get_rendering_environment, join_location, open_document,
+    resolve_location, write_output,
 )
 
 logger = logging.getLogger('soapfish')
@@ -26,12 +26,14 @@ def rewrite_paths(schema, cwd, base_path):
     This location is the unique identification for each file, they must match.
     """
     for i in itertools.chain(schema.includes, schema.imports):
-        if i.schemaLocation is None or '://' in i.schemaLocation:
-            # skip if nothing to rewrite or absolute url.
+        if i.schemaLocation is None:
             continue
         elif '://' in cwd:
             # remote files must handle paths as url.
-            i.schemaLocation = urljoin(f'{cwd}/', i.schemaLocation)
+            i.schemaLocation = join_location(cwd, i.schemaLocation)
+        elif '://' in i.schemaLocation:
+            # skip if nothing to rewrite: absolute url.
+            continue
         else:
             # local files should handle relative paths.
             path = os.path.normpath(os.path.join(cwd, i.schemaLocation))
@@ -174,8 +176,7 @@ def main(argv=None):
 
     logger.info('Generating code for XSD document: %s', opt.xsd)
     xml = stdin.read() if opt.xsd == '-' else open_document(opt.xsd)
-    cwd = opt.xsd if '://' in opt.xsd else os.path.abspath(opt.xsd)
-    cwd = os.path.dirname(cwd)
+    cwd = base_location(opt.xsd) if '://' in opt.xsd else os.path.dirname(os.path.abspath(opt.xsd))
     code = generate_code_from_xsd(xml, encoding='utf-8', cwd=cwd)
 
     write_output(opt.output, code.strip())
-- 
2.43.0


From 42290adeb07188d42348d2d713a9c099a99bbe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 43/71] fix: fields whose names are no Python identifiers get
 one in generated code

---
 soapfish/templates/lib.jinja2 | 10 +++++-----
 soapfish/utils.py             |  6 +++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index e5991e9..73052bc 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -121,7 +121,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -139,7 +139,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
@@ -156,7 +156,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
     {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
     {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace='{{ element.simpleType.restriction.whiteSpace.value }}',{% endif %}){% if element.name in keywords %}, tagname='{{ element.name }}'{% endif %})
+    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace='{{ element.simpleType.restriction.whiteSpace.value }}',{% endif %}){% if element.name|fix_keyword != element.name %}, tagname='{{ element.name }}'{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 3257d5c..63451d7 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -127,6 +127,10 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def capitalize(value):
         return value[0].upper() + value[1:]
 
+    def identifier(name):
+        name = re.sub(r'\W', '_', str(name))
+        return f'_{name}' if name in keywords or not name.isidentifier() else name
+
     def use(value):
         from . import xsd
         if value == xsd.Use.OPTIONAL:
@@ -192,7 +196,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        fix_keyword=identifier,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
         type=get_type,
-- 
2.43.0


From cb04e2030aec62949daf1717eb87b6de6e1aaba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 44/71] fix: generated fields of an inline type keep their
 occurrence and nillability

---
 soapfish/templates/lib.jinja2 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 73052bc..90e90e5 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -136,13 +136,17 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {# blank line #}
 {%- endmacro %}
 
+{% macro render_occurrence(element) -%}
+{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
+{%- endmacro %}
+
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_occurrence(element) }})
     {%- endif %}
     {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
     enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
@@ -156,7 +160,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
     {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
     {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace='{{ element.simpleType.restriction.whiteSpace.value }}',{% endif %}){% if element.name|fix_keyword != element.name %}, tagname='{{ element.name }}'{% endif %})
+    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace='{{ element.simpleType.restriction.whiteSpace.value }}',{% endif %}){{ render_occurrence(element) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From d0b169e11640a743e77bd6857f85aac6d135b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 45/71] fix: text of a document is quoted in the code generated
 from it

---
 soapfish/templates/lib.jinja2  | 34 +++++++++++++++++-----------------
 soapfish/templates/wsdl.jinja2 | 28 ++++++++++++++--------------
 soapfish/utils.py              |  9 +++++++++
 3 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 90e90e5..7afeccb 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,15 +15,15 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|literal }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
-    elementFormDefault='{{ schema.elementFormDefault }}',
+    location={{ location|url_template|literal }},{% endif %}
+    elementFormDefault={{ schema.elementFormDefault|literal }},
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|literal }}: xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|literal }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -64,20 +64,20 @@ class {{ group.name|capitalize }}(xsd.Group):
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
+    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}]
 {%- endif %}
 {%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
+    pattern = {{ restriction.pattern.value|raw_literal }}
 {%- endif %}
 {%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
+    minInclusive = {{ restriction.minInclusive.value|raw_literal }}
 {%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
+    minExclusive = {{ restriction.minExclusive.value|raw_literal }}
 {%- endif %}
 {%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
+    maxInclusive = {{ restriction.maxInclusive.value|raw_literal }}
 {%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
+    maxExclusive = {{ restriction.maxExclusive.value|raw_literal }}
 {%- endif %}
 {%- if not restriction.enumerations and not restriction.pattern
         and not restriction.minInclusive and not restriction.minExclusive
@@ -121,7 +121,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -137,7 +137,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endmacro %}
 
 {% macro render_occurrence(element) -%}
-{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
+{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
 {%- endmacro %}
 
 {% macro render_xsd_element(element, known_types=None) -%}
@@ -148,7 +148,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
+    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
     {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
@@ -156,11 +156,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
     {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
+    {%- if element.simpleType.restriction.pattern %}pattern={{ element.simpleType.restriction.pattern.value|raw_literal }},{% endif %}
     {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
     {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
     {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace='{{ element.simpleType.restriction.whiteSpace.value }}',{% endif %}){{ render_occurrence(element) }})
+    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %}){{ render_occurrence(element) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..1344bd6 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -49,7 +49,7 @@ class {{ _im.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
     {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
@@ -61,7 +61,7 @@ class {{ _om.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
     {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
@@ -71,11 +71,11 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction={{ operation.operation.soapAction|literal }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
-    input='{{ _im.part.element|remove_namespace }}',
-    inputPartName='{{ _im.part.name }}',
+    input={{ _im.part.element|remove_namespace|literal }},
+    inputPartName={{ _im.part.name|literal }},
     {%- else -%}
     input={{ _im.part.type|remove_namespace|capitalize }},
     {%- endif -%}
@@ -85,8 +85,8 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
-    output='{{ _om.part.element|remove_namespace }}',
-    outputPartName='{{ _om.part.name }}',
+    output={{ _om.part.element|remove_namespace|literal }},
+    outputPartName={{ _om.part.name|literal }},
     {%- else -%}
     output={{ _om.part.type|remove_namespace|capitalize }},
     {%- endif -%}
@@ -94,9 +94,9 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- if _omh %}
     output_header={{ _om.name }}Headers,
     {%- endif %}
-    operationName='{{ operation.name }}',
+    operationName={{ operation.name|literal }},
     {%- if operation.operation.style %}
-    style='{{ operation.operation.style }}',
+    style={{ operation.operation.style|literal }},
     {%- endif %}
 )
 {# [blank line] #}
@@ -107,9 +107,9 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {# [blank line] #}
 {{ port.name }}_SERVICE = soap.Service(
-    name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    name={{ port.name|literal }},
+    targetNamespace={{ definitions.targetNamespace|literal }},
+    location={{ port.address.location|url_template|literal }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
@@ -140,8 +140,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 class {{ port.name }}ServiceStub(soap.Stub):
     SERVICE = {{ port.name }}_SERVICE
-    SCHEME = '{{ port.address.location|url_component('scheme') }}'
-    HOST = '{{ port.address.location|url_component('netloc') }}'
+    SCHEME = {{ port.address.location|url_component('scheme')|literal }}
+    HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
     def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 63451d7..8f74ae0 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -131,6 +131,13 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         name = re.sub(r'\W', '_', str(name))
         return f'_{name}' if name in keywords or not name.isidentifier() else name
 
+    def literal(value):
+        return repr(str(value))
+
+    def raw_literal(value):
+        code = f"r'{value}'"
+        return literal(value) if re.search(r"['\r\n]|\\$", str(value)) else code
+
     def use(value):
         from . import xsd
         if value == xsd.Use.OPTIONAL:
@@ -197,6 +204,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         fix_keyword=identifier,
+        literal=literal,
+        raw_literal=raw_literal,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
         type=get_type,
-- 
2.43.0


From 40ef32fa014e961fc88f43c472f872675a3f2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 46/71] fix: generated stubs handle parts with a type and
 operation names that are no identifiers

---
 soapfish/templates/lib.jinja2  |  4 ++--
 soapfish/templates/wsdl.jinja2 | 39 +++++++++++++++++-----------------
 soapfish/utils.py              |  2 +-
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 7afeccb..f5548f6 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -124,7 +124,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+    {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
 {%- endfor %}
 {%- for element in elements -%}
     {{ render_xsd_element(element, known_types) }}
@@ -163,7 +163,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %}){{ render_occurrence(element) }})
     {%- endif %}
     {%- if element.ref %}
-    {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
+    {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
     {%- endif %}
 {%- endmacro %}
 
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 1344bd6..c588d4c 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name|fix_keyword }}(request, {{ (_im.part.element or _im.part.type)|remove_namespace|fix_keyword }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return {{ (_om.part.element or _om.part.type)|remove_namespace|fix_keyword }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -45,31 +45,31 @@ def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
-class {{ _im.name }}Headers(BaseHeader):
+class {{ _im.name|fix_keyword }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif -%}
 {%- if _omh %}
-class {{ _om.name }}Headers(BaseHeader):
+class {{ _om.name|fix_keyword }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|literal }})
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
 {%- endif %}
-{{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+{{ operation.name|fix_keyword }}_method = xsd.Method(
+    {% if is_server %}function={{ operation.name|fix_keyword }},
     {% endif -%}
     soapAction={{ operation.operation.soapAction|literal }},
     {%- if _im.parts -%}
@@ -81,7 +81,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ _im.name }}Headers,
+    input_header={{ _im.name|fix_keyword }}Headers,
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
@@ -92,7 +92,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ _om.name }}Headers,
+    output_header={{ _om.name|fix_keyword }}Headers,
     {%- endif %}
     operationName={{ operation.name|literal }},
     {%- if operation.operation.style %}
@@ -106,7 +106,7 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service
 {# [blank line] #}
 {# [blank line] #}
-{{ port.name }}_SERVICE = soap.Service(
+{{ port.name|fix_keyword }}_SERVICE = soap.Service(
     name={{ port.name|literal }},
     targetNamespace={{ definitions.targetNamespace|literal }},
     location={{ port.address.location|url_template|literal }},
@@ -116,7 +116,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
-    methods=[{% for o in binding.operations %}{{ o.name }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
+    methods=[{% for o in binding.operations %}{{ o.name|fix_keyword }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
 )
 {# [blank line] #}
 {# [blank line] #}
@@ -126,7 +126,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Uncomment the following lines to turn on dispatching for Django:
 # from soapfish.django_ import django_dispatcher
-# dispatcher = django_dispatcher({{ port.name }}_SERVICE)
+# dispatcher = django_dispatcher({{ port.name|fix_keyword }}_SERVICE)
 {# [blank line] #}
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
@@ -138,14 +138,15 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service Stub
 {# [blank line] #}
 {# [blank line] #}
-class {{ port.name }}ServiceStub(soap.Stub):
-    SERVICE = {{ port.name }}_SERVICE
+class {{ port.name|fix_keyword }}ServiceStub(soap.Stub):
+    SERVICE = {{ port.name|fix_keyword }}_SERVICE
     SCHEME = {{ port.address.location|url_component('scheme')|literal }}
     HOST = {{ port.address.location|url_component('netloc')|literal }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+    {%- set parameter = (_im.part.element or _im.part.type)|remove_namespace|fix_keyword %}
+    def {{ operation.name|fix_keyword }}(self, {{ parameter }}, header=None):
+        return self.call({{ operation.name|literal }}, {{ parameter }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 8f74ae0..e703fea 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -125,7 +125,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     from . import soap, xsd, xsdspec, wsdl
 
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        return identifier(value[0].upper() + value[1:])
 
     def identifier(name):
         name = re.sub(r'\W', '_', str(name))
-- 
2.43.0


From 5ff1423506670c0f09cef1bcdae413e46d2717df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 47/71] fix: length facets of named simple types are part of
 published schemas and generated code

---
 soapfish/py2xsd.py            |  3 +++
 soapfish/templates/lib.jinja2 | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index ee23737..12a8f2a 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -137,6 +137,9 @@ def xsd_simpleType(st):
         xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
     elif hasattr(st, 'pattern') and st.pattern:
         xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
+    for facet in ('length', 'minLength', 'maxLength'):
+        if getattr(st, facet, None):
+            setattr(xsd_restriction, facet, xsdspec.RestrictionValue(value=str(getattr(st, facet))))
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index f5548f6..e3d99db 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -79,9 +79,19 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- elif restriction.maxExclusive %}
     maxExclusive = {{ restriction.maxExclusive.value|raw_literal }}
 {%- endif %}
+{%- if restriction.length %}
+    length = {{ restriction.length.value }}
+{%- endif %}
+{%- if restriction.minLength %}
+    minLength = {{ restriction.minLength.value }}
+{%- endif %}
+{%- if restriction.maxLength %}
+    maxLength = {{ restriction.maxLength.value }}
+{%- endif %}
 {%- if not restriction.enumerations and not restriction.pattern
         and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+        and not restriction.maxInclusive and not restriction.maxExclusive
+        and not restriction.length and not restriction.minLength and not restriction.maxLength %}
     pass
 {%- endif %}
 {# [blank line] #}
-- 
2.43.0


From df0eeb21f1929c037e5ce708b7cef980dcc49dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 48/71] fix: published WSDLs refer to types and elements of
 several schemas by their own namespaces

---
 soapfish/py2wsdl.py | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 9eaa31e..148d33b 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -2,6 +2,7 @@
 
 import argparse
 import logging
+import re
 import sys
 
 from lxml import etree
@@ -64,23 +65,48 @@ def build_portTypes(wsdl, definitions, service):
     definitions.portTypes.append(portType)
 
 
+def schema_prefixes(service):
+    """Return the prefixes of the namespaces which the schemas of the service describe."""
+    prefixes = {service.schemas[0].targetNamespace: 'sns'}
+
+    def collect(schemas, seen):
+        for schema in schemas:
+            prefixes.setdefault(schema.targetNamespace, f'sns{len(prefixes)}')
+            if schema not in seen:
+                collect([*schema.imports, *schema.includes], [*seen, schema])
+
+    collect(service.schemas, [])
+    return prefixes
+
+
+def qualify(service, message):
+    """Return the qualified name of an element (by its name) or a type."""
+    if isinstance(message, str):
+        name, owner = message, service.find_element_by_name(message)
+        namespace = None if owner is None else owner.namespace
+    else:
+        name, owner = uncapitalize(message.__name__), message.SCHEMA
+        namespace = None if owner is None else owner.targetNamespace
+    return schema_prefixes(service).get(namespace, 'sns') + ':' + name
+
+
 def build_messages(wsdl, definitions, service):
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
         part = wsdl.Part(name='body')
         if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
+            part.element = qualify(service, method.input)
         else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
+            part.type = qualify(service, method.input)
         inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
         part = wsdl.Part(name='body')
         if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
+            part.element = qualify(service, method.output)
         else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
+            part.type = qualify(service, method.output)
         outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
@@ -102,8 +128,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{prefix: namespace for namespace, prefix in schema_prefixes(service).items()},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
@@ -116,6 +141,14 @@ def generate_wsdl(service):
                        namespace=ns.wsdl,
                        elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
 
+    # on its own every schema refers to its types with the prefix sns.
+    prefixes = schema_prefixes(service)
+    for schema in xmlelement.iter('{%s}schema' % ns.xsd):
+        prefix = prefixes[schema.get('targetNamespace')] + ':'
+        for element in schema.iter('{%s}*' % ns.xsd):
+            for name in {'base', 'ref', 'substitutionGroup', 'type'}.intersection(element.keys()):
+                element.set(name, re.sub('^sns:', prefix, element.get(name)))
+
     return xmlelement
 
 
-- 
2.43.0


From 7725b77bd9536817accaeaa47283428d50e9a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:57 +0000
Subject: [PATCH 49/71] fix: substitution groups named with any prefix survive
 in generated schemas

---
 soapfish/py2xsd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 12a8f2a..800381b 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -189,8 +189,7 @@ def generate_elements(xsd_schema, schema):
 
         # TODO: Support non-string values for substitutionGroup:
         if element.substitutionGroup is not None:
-            value = element.substitutionGroup
-            xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
+            xsd_element.substitutionGroup = 'sns:' + element.substitutionGroup.split(':')[-1]
 
         if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
             xsd_element.type = get_xsd_type(element._type)
-- 
2.43.0


From 0d6700919494b71f73d47f1e194748b522a1fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 50/71] fix: the Action header selects the operation behind
 every front end

---
 soapfish/soap11.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index fa4c388..b60daf7 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -10,14 +10,10 @@ NAME = 'soap11'
 
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
-    if request.environ.get('SOAPACTION'):
-        return request.environ.get('SOAPACTION').replace('"', '')
-    elif request.environ.get('HTTP_SOAPACTION'):  # how WSGI spells the header
-        return request.environ.get('HTTP_SOAPACTION').replace('"', '')
-    elif request.environ.get('ACTION'):
-        return request.environ.get('ACTION').replace('"', '')
-    else:
-        return None
+    for name in ('SOAPACTION', 'HTTP_SOAPACTION', 'ACTION', 'HTTP_ACTION'):  # HTTP_: how WSGI spells a header
+        if request.environ.get(name):
+            return request.environ.get(name).replace('"', '')
+    return None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From 24b15d76e57542627d5308aca96f615c379b338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 51/71] fix: the content of a choice is parsed inside of other
 elements

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3dd78d2..fbc7045 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -973,7 +973,9 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         for attribute in instance._meta.attributes:
             attribute.parse(instance, attribute._name, xmlelement)
 
-        is_choice = (instance._meta.cls.INDICATOR == Choice)
+        # the element may be the chosen one itself rather than contain it
+        is_choice = (instance._meta.cls.INDICATOR == Choice) \
+            and not any(cls._find_subelement(field, xmlelement) for field in instance._meta.fields)
         for field in instance._meta.fields:
             if is_choice:
                 if not cls._is_matching_element(field, xmlelement):
-- 
2.43.0


From bce7091ed291a3b0fe2a622dbaccef3d77488751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 52/71] fix: a choice with lists can be rendered

---
 soapfish/xsd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index fbc7045..7d8c229 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -930,10 +930,13 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if self.SCHEMA:
             namespace = self.SCHEMA.targetNamespace
         for field in instance._meta.all:
+            value = getattr(instance, field._name)
+            if instance.INDICATOR is Choice and isinstance(value, TypedList) and not value:
+                continue  # not the chosen one
             field.render(
                 parent=parent,
                 field_name=field.tagname or field._name,
-                value=getattr(instance, field._name),
+                value=value,
                 namespace=namespace,
                 elementFormDefault=elementFormDefault)
 
-- 
2.43.0


From 90a06d2c9c714d790f53d5cdc035d420dd43213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:15 +0000
Subject: [PATCH 53/71] fix: the elements and attributes of groups are
 published with the types that refer to them

---
 soapfish/py2xsd.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 800381b..c534f00 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -93,12 +93,28 @@ def create_xsd_element(element):
     return xsd_element
 
 
+def expand_groups(complexType):
+    """Return the attributes and the elements of a type, with those of the groups it refers to in the place of the reference."""
+    attributes, fields = list(complexType._meta.attributes), []
+    for field in complexType._meta.allelements:
+        if isinstance(field, xsd.Ref):
+            field._evaluate_type()
+            if isinstance(field._type, xsd.Group):
+                group_attributes, group_fields = expand_groups(field._type.__class__)
+                attributes.extend(group_attributes)
+                fields.extend(group_fields)
+        else:
+            fields.append(field)
+    return attributes, fields
+
+
 def xsd_complexType(complexType, named=True):
     xsd_ct = xsdspec.XSDComplexType()
     if named:
         xsd_ct.name = uncapitalize(complexType.__name__)
 
-    for attribute in complexType._meta.attributes:
+    attributes, fields = expand_groups(complexType)
+    for attribute in attributes:
         xsd_attr = xsd_attribute(attribute)
         xsd_ct.attributes.append(xsd_attr)
 
@@ -112,7 +128,7 @@ def xsd_complexType(complexType, named=True):
     else:
         container = xsd_ct
 
-    for element in complexType._meta.fields:
+    for element in fields:
         for element_ in element.xsd_elements():
             if element_._type is None:
                 # The type must be known in order to generate a valid schema. The
-- 
2.43.0


From 059d7af33efa47ba11f02e78989ff631793c767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 54/71] fix: types are generated after the types they are
 derived from

---
 soapfish/xsd2py.py | 62 +++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index bcad7f0..0c2098d 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -12,7 +11,7 @@ from lxml import etree
 from . import namespaces as ns, xsdspec
 from .utils import (
     base_location, check_root, find_xsd_namespaces, get_rendering_environment, join_location, open_document,
-    resolve_location, write_output,
+    remove_namespace, resolve_location, write_output,
 )
 
 logger = logging.getLogger('soapfish')
@@ -82,44 +81,32 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
-def _reorder_complexTypes(schema):
-    """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
-        content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
+def _reorder_types(types, get_base):
+    """Reorder types to render the base of an extension/restriction before the types derived from it."""
+    by_name = {_type.name: _type for _type in types}
+    ordered = {}
+
+    def add(_type, derived=()):
+        if _type.name in ordered or _type.name in derived:
+            return
+        base = by_name.get(remove_namespace(get_base(_type)))
+        if base is not None:
+            add(base, (*derived, _type.name))
+        ordered[_type.name] = len(ordered)
+
+    for _type in types:
+        add(_type)
+    types.sort(key=lambda _type: ordered[_type.name])
 
-        weights[complex_type.name] = (n, base)
 
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
+def _complexType_base(complexType):
+    content = complexType.complexContent
+    derivation = content and (content.extension or content.restriction)
+    return derivation and derivation.base
 
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
 
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+def _simpleType_base(simpleType):
+    return simpleType.restriction and simpleType.restriction.base
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -131,7 +118,8 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
-    _reorder_complexTypes(schema)
+    _reorder_types(schema.simpleTypes, _simpleType_base)
+    _reorder_types(schema.complexTypes, _complexType_base)
 
     if known_paths is None:
         known_paths = []
-- 
2.43.0


From a9d84c13c206862037d7e5509179353ca409634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:12 +0000
Subject: [PATCH 55/71] fix: the type of an element can be an extension

---
 soapfish/templates/lib.jinja2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index e3d99db..a759685 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -106,11 +106,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
-- 
2.43.0


From 96fdff2268add760e9f7966923255aba5fb60ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 56/71] fix: the elements of a generated group keep their
 occurrence and inline types

---
 soapfish/templates/lib.jinja2 | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index a759685..d8fd764 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -53,9 +53,8 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 
 {% macro render_xsd_Group(group, known_types=None) -%}
 class {{ group.name|capitalize }}(xsd.Group):
-    {%- for element in group.sequence.elements %}
-    {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %})
+    {%- for element in group.sequence.elements -%}
+    {{ render_xsd_element(element, known_types) }}
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
-- 
2.43.0


From d807908e2d9169d25828f349ef6937f06a558a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:24 +0000
Subject: [PATCH 57/71] fix: a repeated element that is required is generated
 as required

---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index d8fd764..c2c8757 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -146,7 +146,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endmacro %}
 
 {% macro render_occurrence(element) -%}
-{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
+{% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% elif element.maxOccurs and element.maxOccurs > 1 %}, minOccurs=1{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
 {%- endmacro %}
 
 {% macro render_xsd_element(element, known_types=None) -%}
-- 
2.43.0


From 8f798d29969b47954a8d3afc444aa26ebe19b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 58/71] fix: a generated service has the SOAP version of its
 own binding

---
 soapfish/templates/wsdl.jinja2 |  6 +++---
 soapfish/wsdl2py.py            | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index c588d4c..d3141b5 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -111,10 +111,10 @@ class {{ _om.name|fix_keyword }}Headers(BaseHeader):
     targetNamespace={{ definitions.targetNamespace|literal }},
     location={{ port.address.location|url_template|literal }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- if soap_version.NAME == 'soap11' %}
-    version=soap.SOAPVersion.SOAP11,
-    {%- else %}
+    {%- if port.binding|remove_namespace in soap12_bindings %}
     version=soap.SOAPVersion.SOAP12,
+    {%- else %}
+    version=soap.SOAPVersion.SOAP11,
     {%- endif %}
     methods=[{% for o in binding.operations %}{{ o.name|fix_keyword }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
 )
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 39c3414..c1235a5 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -36,7 +36,12 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
+def find_soap12_bindings(xml):
+    namespaces = {'wsdl': ns.wsdl, 'soap12': ns.wsdl_soap12}
+    return set(xml.xpath('wsdl:binding[soap12:binding]/@name', namespaces=namespaces))
+
+
+def merge_imports(wsdl, definitions, xsd_namespaces, soap12_bindings, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
         seen = set()
@@ -61,13 +66,15 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_p
         check_root(xml, 'definitions', (ns.wsdl,))
 
         xsd_namespaces.update(find_xsd_namespaces(xml))
+        soap12_bindings.update(find_soap12_bindings(xml))
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
         for schema in imported.types.schemas if imported.types else []:
             rewrite_paths(schema, import_cwd, base_path)
 
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen, base_path=base_path)
+            merge_imports(wsdl, imported, xsd_namespaces, soap12_bindings, cwd=import_cwd, seen=seen,
+                          base_path=base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
@@ -96,7 +103,8 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
 
     wsdl = get_wsdl_classes(soap_version.BINDING_NAMESPACE)
     definitions = wsdl.Definitions.parse_xmlelement(xml)
-    merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
+    soap12_bindings = find_soap12_bindings(xml)
+    merge_imports(wsdl, definitions, xsd_namespaces, soap12_bindings, cwd=cwd)
 
     kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
@@ -106,7 +114,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     tpl = env.get_template('wsdl.jinja2')
 
     code = tpl.render(
-        soap_version=soap_version,
+        soap12_bindings=soap12_bindings,
         definitions=definitions,
         schemas=schemas,
         is_server=bool(target == 'server'),
-- 
2.43.0


From ffb6570668b68e60d86572ac20c8fca5664f41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:36 +0000
Subject: [PATCH 59/71] fix: decimal.Decimal values are compared with numeric
 facets

---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7d8c229..0bcf5ff 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -400,9 +400,7 @@ class Decimal(SimpleType):
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, decimal.Decimal):
-            value = str(value)
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, (decimal.Decimal, float, int)):
             pass  # value is just value
         elif isinstance(value, str):
             value = float(value)
@@ -410,7 +408,7 @@ class Decimal(SimpleType):
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
         self._check_restrictions(value)
-        return value
+        return str(value) if isinstance(value, decimal.Decimal) else value
 
     def xmlvalue(self, value):
         return str(value)
-- 
2.43.0


From 1b2ec4496b8a6d73bef5209d9114404cf6bb1053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 60/71] fix: decimals and infinite numbers are written as XML
 Schema has them

---
 soapfish/xsd.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0bcf5ff..58bb689 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -411,7 +411,11 @@ class Decimal(SimpleType):
         return str(value) if isinstance(value, decimal.Decimal) else value
 
     def xmlvalue(self, value):
-        return str(value)
+        text = str(value)
+        if not isinstance(value, int) and 'e' in text.lower():
+            # an xsd:decimal has no exponent
+            return format(decimal.Decimal(text), 'f')
+        return text
 
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
@@ -420,6 +424,10 @@ class Decimal(SimpleType):
             return self.accept(xmlvalue)
 
 
+def float_xmlvalue(value):
+    return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(str(value), str(value))
+
+
 class Double(Decimal):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
@@ -428,6 +436,9 @@ class Double(Decimal):
             minInclusive=minInclusive, pattern=pattern,
         )
 
+    def xmlvalue(self, value):
+        return float_xmlvalue(value)
+
 
 class Float(Decimal):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
@@ -437,6 +448,9 @@ class Float(Decimal):
             minInclusive=minInclusive, pattern=pattern,
         )
 
+    def xmlvalue(self, value):
+        return float_xmlvalue(value)
+
 
 class Integer(Decimal):
     overrides = {'fractionDigits': 0, 'pattern': r'[-+]?[0-9]+'}
-- 
2.43.0


From 1d4cbc1ab558d5fa3c2c4aa3bb2c78e506424ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:22 +0000
Subject: [PATCH 61/71] fix: a field does not take the element of another field
 with its name

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 58bb689..bcd7674 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -975,7 +975,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # comment, processing instruction, ...
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From f077aaf39b60c092d90776ddba449e43399023da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:17 +0000
Subject: [PATCH 62/71] fix: the remaining integer types and NMTOKEN are
 published as the types of XML Schema

---
 soapfish/py2xsd.py | 7 +++++--
 soapfish/utils.py  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c534f00..bac956f 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -12,10 +12,13 @@ from .utils import load_module, uncapitalize, walk_schema_tree, write_output
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [
+    xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN, xsd.NMTOKENS,
+]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index e703fea..817d64b 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -84,7 +84,7 @@ def remove_namespace(qname):
 
 
 def uncapitalize(value):
-    return value if value == 'QName' else value[0].lower() + value[1:]
+    return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
 
 def schema_name(obj, location=None):
-- 
2.43.0


From 93e0aecc8c551c97c0317fefb4327f9b254a15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:22 +0000
Subject: [PATCH 63/71] fix: numbers enumerated for an element are part of the
 published schema

---
 soapfish/py2xsd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index bac956f..6bb6553 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -62,9 +62,10 @@ def create_xsd_element(element):
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
 
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
+        if hasattr(element._type, 'enumeration') and element._type.enumeration \
+                and (parent_type == xsd.SimpleType or _type.__class__ in NUMERIC_TYPES):
             for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
+                enum = xsdspec.Enumeration.create(_type.xmlvalue(value))
                 xsd_element.simpleType.restriction.enumerations.append(enum)
 
         if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-- 
2.43.0


From 65a44873b006f20b48c2571d6a48e60ad85958b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:35 +0000
Subject: [PATCH 64/71] fix: generated code compares numbers with enumerated
 numbers

---
 soapfish/templates/lib.jinja2 | 3 ++-
 soapfish/utils.py             | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index c2c8757..db7f0da 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -157,7 +157,8 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|literal }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    {%- set base = element.simpleType.restriction|type(known_types) -%}
+    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|enum_literal(base) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
     {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 817d64b..0678ab6 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -1,4 +1,5 @@
 import hashlib
+import inspect
 import itertools
 import keyword
 import logging
@@ -138,6 +139,13 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         code = f"r'{value}'"
         return literal(value) if re.search(r"['\r\n]|\\$", str(value)) else code
 
+    def enum_literal(value, base):
+        # a number is compared with numbers
+        cls = getattr(xsd, base[len('xsd.'):], None) if base.startswith('xsd.') else None
+        if inspect.isclass(cls) and issubclass(cls, xsd.Decimal):
+            return repr(cls().accept(value))
+        return literal(value)
+
     def use(value):
         from . import xsd
         if value == xsd.Use.OPTIONAL:
@@ -206,6 +214,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         fix_keyword=identifier,
         literal=literal,
         raw_literal=raw_literal,
+        enum_literal=enum_literal,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
         type=get_type,
-- 
2.43.0


From 832d8f33f1ab2b5b6579e244e90c5e7bc92ab740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:03 +0000
Subject: [PATCH 65/71] fix: the stub reads the output header of the service,
 as the dispatcher does with its input header

---
 soapfish/soap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index e8ca771..664c979 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -104,8 +104,9 @@ class Stub:
         soap = self.service.version
         envelope = soap.Envelope.parsexml(content)
 
-        if envelope.Header and method and method.output_header:
-            response_header = envelope.Header.parse_as(method.output_header)
+        output_header = (method and method.output_header) or self.service.output_header
+        if envelope.Header and output_header:
+            response_header = envelope.Header.parse_as(output_header)
         else:
             response_header = None
 
-- 
2.43.0


From 29794d68b049381f8864da242d0c063e55a3c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:08 +0000
Subject: [PATCH 66/71] fix: a boolean given as a number can be rendered

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index bcd7674..fe1adfd 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -198,7 +198,7 @@ class String(SimpleType):
 class Boolean(SimpleType):
     def accept(self, value):
         if value in [True, False, None]:
-            return value
+            return None if value is None else bool(value)
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
-- 
2.43.0


From 0b2d236960e15587e708abf9cd7f490299e734e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:15 +0000
Subject: [PATCH 67/71] fix: schemas of one WSDL come in an order in which each
 is defined before it is used

---
 soapfish/wsdl2py.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index c1235a5..3f5b3d9 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -22,16 +22,19 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
+    # only the schemas at hand can be ordered, an import may be that of another document
+    inline = {schema.targetNamespace for schema in schemas}
     schemas, targets, counter, x = [], set(), len(schemas), collections.deque(schemas)
     while x and counter > 0:
         counter -= 1
         schema = x.popleft()
-        ns = {i.namespace for i in schema.imports}
+        ns = {i.namespace for i in schema.imports} & inline
         if x and ns and ns - targets:
             x.append(schema)
         else:
             schemas.append(schema)
             targets.add(schema.targetNamespace)
+            counter = len(x)
     schemas.extend(x)  # always add remaining unorderable schemas...
     return schemas
 
-- 
2.43.0


From 38e9472bee38170a511865afb5b2c7620d286cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:15 +0000
Subject: [PATCH 68/71] fix: a type can extend or restrict one of another
 schema of the same WSDL

---
 soapfish/wsdl2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 3f5b3d9..65a7cd5 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -109,7 +109,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     soap12_bindings = find_soap12_bindings(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, soap12_bindings, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_types': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
-- 
2.43.0


From fdb34c9ca79593daebd0fa4d5e50be3dca6274a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:44 +0000
Subject: [PATCH 69/71] fix: the facets of an integer field are not replaced by
 the limits of its type

---
 soapfish/xsd.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index fe1adfd..6c5c29c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -458,8 +458,21 @@ class Integer(Decimal):
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
         facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        own = {}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
+            own.update(c.overrides)
+        # the facets of a field narrow those of its type
+        for inclusive, exclusive, tighter in (('minInclusive', 'minExclusive', max), ('maxInclusive', 'maxExclusive', min)):
+            limit, bound = own.pop(inclusive, None), facets[inclusive]
+            if limit is None:
+                continue
+            if bound is not None:
+                facets[inclusive] = tighter(bound, limit)
+            elif facets[exclusive] is None or tighter(facets[exclusive], limit) != facets[exclusive]:
+                facets[inclusive], facets[exclusive] = limit, None
+        if facets['pattern'] is not None:
+            own.pop('pattern', None)
+        facets.update(own)
         super().__init__(**facets)
 
     def accept(self, value):
-- 
2.43.0


From 239d7aa8ebc77d8bb5b1f5e97676c49361afed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:58 +0000
Subject: [PATCH 70/71] fix: a named number type keeps the facets its class
 declares

---
 soapfish/py2xsd.py |  7 +++++--
 soapfish/xsd.py    | 45 +++++++++++++++++++++++++++++++++++++--------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 6bb6553..f0f3df3 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -152,14 +152,17 @@ def xsd_simpleType(st):
     xsd_restriction.base = get_xsd_type(st.__bases__[0]())
     if hasattr(st, 'enumeration') and st.enumeration:
         for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
+            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum if isinstance(enum, str) else st().xmlvalue(enum)))
     if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
+        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=str(st.fractionDigits))
     elif hasattr(st, 'pattern') and st.pattern:
         xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
     for facet in ('length', 'minLength', 'maxLength'):
         if getattr(st, facet, None):
             setattr(xsd_restriction, facet, xsdspec.RestrictionValue(value=str(getattr(st, facet))))
+    for facet in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'totalDigits'):
+        if vars(st).get(facet) is not None:
+            setattr(xsd_restriction, facet, xsdspec.RestrictionValue(value=str(getattr(st, facet))))
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6c5c29c..b2b957f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -344,18 +344,38 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
+    # To be defined in children.
+    enumeration = None
+    fractionDigits = None
+    maxExclusive = None
+    maxInclusive = None
+    minExclusive = None
+    minInclusive = None
+    pattern = None
+    totalDigits = None
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None, totalDigits=None):
-        self.enumeration = enumeration
-        self.fractionDigits = fractionDigits
-        self.maxExclusive = maxExclusive
-        self.maxInclusive = maxInclusive
-        self.minExclusive = minExclusive
-        self.minInclusive = minInclusive
-        self.pattern = pattern
-        self.totalDigits = totalDigits
+        # Override static values
+        enumeration = self.enumeration if enumeration is None else enumeration
+        if enumeration is not None:
+            self.enumeration = [self._number(value) for value in enumeration]
+        if fractionDigits is not None:
+            self.fractionDigits = fractionDigits
+        if pattern is not None:
+            self.pattern = pattern
+        if totalDigits is not None:
+            self.totalDigits = totalDigits
+        self.maxExclusive = self._number(self.maxExclusive if maxExclusive is None else maxExclusive)
+        self.maxInclusive = self._number(self.maxInclusive if maxInclusive is None else maxInclusive)
+        self.minExclusive = self._number(self.minExclusive if minExclusive is None else minExclusive)
+        self.minInclusive = self._number(self.minInclusive if minInclusive is None else minInclusive)
+
+    @staticmethod
+    def _number(value):
+        # generated code has the facets of a named type as they are written in the schema
+        return float(value) if isinstance(value, str) else value
 
     def _check_restrictions(self, value):
         if self.enumeration is not None and value not in self.enumeration:
@@ -458,6 +478,11 @@ class Integer(Decimal):
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
         facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        for name in facets:
+            if facets[name] is None:
+                facets[name] = getattr(self, name)
+        for name in ('maxExclusive', 'maxInclusive', 'minExclusive', 'minInclusive'):
+            facets[name] = self._number(facets[name])
         own = {}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
             own.update(c.overrides)
@@ -475,6 +500,10 @@ class Integer(Decimal):
         facets.update(own)
         super().__init__(**facets)
 
+    @staticmethod
+    def _number(value):
+        return int(value) if isinstance(value, str) else value
+
     def accept(self, value):
         if value is None:
             return None
-- 
2.43.0


From b1efbe779f7a79935b06b26c7e04d995edf18ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:36 +0000
Subject: [PATCH 71/71] fix: facets of attributes are published, and generated
 code knows types declared in an attribute

---
 soapfish/py2xsd.py            | 83 +++++++++++++++++++----------------
 soapfish/templates/lib.jinja2 | 24 +++++-----
 2 files changed, 59 insertions(+), 48 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index f0f3df3..86a830b 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -36,12 +36,55 @@ def get_xsd_type(_type):
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
 
+def create_simple_type(_type):
+    """Return the description of a type that is declared in place."""
+    parent_type = _type.__class__.__bases__[0]
+    simple_type = xsdspec.SimpleType()
+    simple_type.restriction = xsdspec.Restriction()
+    simple_type.restriction.base = get_xsd_type(_type)
+
+    if hasattr(_type, 'enumeration') and _type.enumeration \
+            and (parent_type == xsd.SimpleType or _type.__class__ in NUMERIC_TYPES):
+        for value in _type.enumeration:
+            enum = xsdspec.Enumeration.create(_type.xmlvalue(value))
+            simple_type.restriction.enumerations.append(enum)
+
+    if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
+        simple_type.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
+
+    if hasattr(_type, 'pattern') and _type.pattern:
+        simple_type.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
+
+    if getattr(_type, 'minInclusive', None) is not None:
+        simple_type.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
+
+    if getattr(_type, 'minExclusive', None) is not None:
+        simple_type.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
+
+    if getattr(_type, 'maxExclusive', None) is not None:
+        simple_type.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
+
+    if getattr(_type, 'maxInclusive', None) is not None:
+        simple_type.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
+
+    if hasattr(_type, 'totalDigits') and _type.totalDigits:
+        simple_type.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+
+    for facet in ('length', 'minLength', 'maxLength'):
+        if getattr(_type, facet, None):
+            setattr(simple_type.restriction, facet, xsdspec.RestrictionValue(value=str(getattr(_type, facet))))
+    return simple_type
+
+
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
     attribute._evaluate_type()
-    xsdattr.type = get_xsd_type(attribute._type)
+    if inspect.isclass(attribute._passed_type):
+        xsdattr.type = get_xsd_type(attribute._type)
+    else:
+        xsdattr.simpleType = create_simple_type(attribute._type)
     return xsdattr
 
 
@@ -54,44 +97,8 @@ def create_xsd_element(element):
         xsd_element.maxOccurs = element._maxOccurs
 
     # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
-    _type = element._type
-
     if not inspect.isclass(element._passed_type):
-        xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-
-        if hasattr(element._type, 'enumeration') and element._type.enumeration \
-                and (parent_type == xsd.SimpleType or _type.__class__ in NUMERIC_TYPES):
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(_type.xmlvalue(value))
-                xsd_element.simpleType.restriction.enumerations.append(enum)
-
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-            xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
-
-        if hasattr(_type, 'pattern') and _type.pattern:
-            xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
-
-        if getattr(_type, 'minInclusive', None) is not None:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
-
-        if getattr(_type, 'minExclusive', None) is not None:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
-
-        if getattr(_type, 'maxExclusive', None) is not None:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
-
-        if getattr(_type, 'maxInclusive', None) is not None:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
-
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
-            xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
-
-        for facet in ('length', 'minLength', 'maxLength'):
-            if getattr(_type, facet, None):
-                setattr(xsd_element.simpleType.restriction, facet, xsdspec.RestrictionValue(value=str(getattr(_type, facet))))
+        xsd_element.simpleType = create_simple_type(element._type)
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index db7f0da..6ebbb50 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({% if attribute.simpleType %}{{ render_simpleType(attribute, known_types) }}{% else %}{{ attribute|type(known_types) }}{% endif %}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -130,7 +130,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({% if attribute.simpleType %}{{ render_simpleType(attribute, known_types) }}{% else %}{{ attribute|type(known_types) }}{% endif %}{% if name|fix_keyword != name %}, tagname={{ name|literal }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -149,13 +149,8 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% if element.name|fix_keyword != element.name or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|literal }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% elif element.maxOccurs and element.maxOccurs > 1 %}, minOccurs=1{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %}
 {%- endmacro %}
 
-{% macro render_xsd_element(element, known_types=None) -%}
-    {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
-    {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_occurrence(element) }})
-    {%- endif %}
-    {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element.simpleType.restriction|type(known_types) }}(
+{% macro render_simpleType(element, known_types=None) -%}
+    {{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
     {%- set base = element.simpleType.restriction|type(known_types) -%}
     enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|enum_literal(base) }}{% if not loop.last %}, {% endif %}{% endfor %}],
@@ -170,7 +165,16 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
     {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
     {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %}){{ render_occurrence(element) }})
+    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value|literal }},{% endif %})
+{%- endmacro %}
+
+{% macro render_xsd_element(element, known_types=None) -%}
+    {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
+    {%- if element.type %}
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{{ render_occurrence(element) }})
+    {%- endif %}
+    {%- if element.simpleType %}
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ render_simpleType(element, known_types) }}{{ render_occurrence(element) }})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace|fix_keyword }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0

