From c51e8323e1139396a38a9612bc5e0f3f96825435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 01/47] fix: decode the client's message once, after all chunks
 were read

A multi-byte character split between two reads made the request fail,
and a compressed message could not be decompressed.
---
 oa/protocol/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 78a5b04..bd96ddb 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -67,12 +67,12 @@ class BaseProtocol(object):
                                         self.chunk_size))
             if not chunk:
                 break
-            message_chunks.append(chunk.decode("utf8"))
+            message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
         if options.get('compress') == "zlib":
-            return zlib.decompress("".join(message_chunks))
-        return "".join(message_chunks)
+            return zlib.decompress(b"".join(message_chunks)).decode("utf8")
+        return b"".join(message_chunks).decode("utf8")
 
     def get_and_handle(self):
         """Get data from the client and call the handle method."""
-- 
2.43.0


From fc310209409c59d6d5696850750ee5e119759177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 02/47] fix: announce the length of the reply body in bytes

---
 oa/protocol/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/protocol/check.py b/oa/protocol/check.py
index 1664266..3ddb3ba 100644
--- a/oa/protocol/check.py
+++ b/oa/protocol/check.py
@@ -20,7 +20,7 @@ class CheckCommand(oa.protocol.base.BaseProtocol):
         yield "Spam: %s ; %.1f / %s\r\n" % (spam, msg.score,
                                             self.ruleset.conf["required_score"])
         result = "".join(self.extra_details(msg, options))
-        yield "Content-length: %s\r\n\r\n" % len(result)
+        yield "Content-length: %s\r\n\r\n" % len(result.encode("utf8"))
         yield result
 
     def extra_details(self, msg, options):
-- 
2.43.0


From 48d9a43ce31ee23e0abba89eca2102eef052f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 03/47] fix: accept blanks after the comma of TELL's Set and
 Remove targets

---
 oa/protocol/tell.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/protocol/tell.py b/oa/protocol/tell.py
index fb24035..f3298c3 100644
--- a/oa/protocol/tell.py
+++ b/oa/protocol/tell.py
@@ -16,13 +16,15 @@ class TellCommand(oa.protocol.base.BaseProtocol):
         spam = options.get("message-class", "spam").lower() == "spam"
         response = []
         if "set" in options:
-            targets = options.get("set").split(",")
+            targets = [target.strip()
+                       for target in options.get("set").split(",")]
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_report(msg, spam, local, remote)
             response.append("DidSet: %s\r\n" % options.get("set"))
         if "remove" in options:
-            targets = options.get("remove").split(",")
+            targets = [target.strip()
+                       for target in options.get("remove").split(",")]
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_revoke(msg, spam, local, remote)
-- 
2.43.0


From 02f012dd624d81eb88984d11465f0aec11dbe0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 04/47] fix: do not share the default value of list options
 between contexts

---
 oa/conf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/conf.py b/oa/conf.py
index f6b4daf..7334a6e 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -1,5 +1,7 @@
 """Manage configuration option parsing."""
 
+import copy
+
 import oa.errors
 
 from datetime import timedelta
@@ -38,7 +40,9 @@ class Conf(object):
         self._plugin_name = self.__class__.__name__
         if self.options:
             for key, (dummy, value) in self.options.items():
-                self.set_global(key, value)
+                # The option may be changed in place, never share the default
+                # between contexts.
+                self.set_global(key, copy.deepcopy(value))
 
     def __setitem__(self, key, value):
         self.set_global(key, value)
-- 
2.43.0


From ccd37ab03b50ba67b12da26c2c2be95fd5a86442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 05/47] fix: do not share the network lists between contexts

---
 oa/networks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oa/networks.py b/oa/networks.py
index 3e3f121..765c141 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -72,11 +72,10 @@ class MSANetworks(NetworkListBase):
 
 
 class NetworkList(object):
-    internal = InternalNetworks()
-    trusted = TrustedNetworks()
-    msa = MSANetworks()
-
     def __init__(self):
+        self.internal = InternalNetworks()
+        self.trusted = TrustedNetworks()
+        self.msa = MSANetworks()
         self.log = logging.getLogger("oa-logger")
 
     @property
-- 
2.43.0


From 161b879f802fc5c250c50716fe8dad51ae4c82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 06/47] fix: an MSA network does not configure the internal
 networks

---
 oa/networks.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/oa/networks.py b/oa/networks.py
index 765c141..2ae2dbc 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -108,5 +108,4 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
-        self.internal.configured = True
         self.msa.add(network, not excluded)
-- 
2.43.0


From c6c1d2aab6ecee358849898d6fa82d125661638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 07/47] fix: ignore an invalid network instead of failing on
 every later lookup

---
 oa/networks.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oa/networks.py b/oa/networks.py
index 2ae2dbc..ad978d3 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -83,7 +83,10 @@ class NetworkList(object):
         return self.internal.configured or self.trusted.configured
 
     def _extract_network(self, network_str):
-        excluded, network, mask = _NETWORK_RE.match(network_str).groups()
+        match = _NETWORK_RE.match(network_str)
+        if match is None:
+            return "", None
+        excluded, network, mask = match.groups()
         clean_value = _format_network_str(network, mask)
         try:
             network = ipaddress.ip_network(clean_value)
@@ -93,6 +96,9 @@ class NetworkList(object):
 
     def add_trusted_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         self.trusted.configured = True
         self.trusted.add(network, not excluded)
         if not self.internal.configured:
@@ -100,6 +106,9 @@ class NetworkList(object):
 
     def add_internal_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         if not self.internal.configured and self.internal:
             self.internal.clear()
         self.internal.configured = True
@@ -108,4 +117,7 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         self.msa.add(network, not excluded)
-- 
2.43.0


From d31a95ca2cc93bab1f756036f4d16792365e2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 08/47] fix: skip a dns_query_restriction without a name

---
 oa/rules/ruleset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fbf6ca5..d7eda12 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -311,6 +311,7 @@ class RuleSet(object):
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
+                continue
 
             if option not in ("allow", "deny"):
                 self.ctxt.log.info(
-- 
2.43.0


From f87a3a57c08e3709bbf90128fb59128a7e4c2ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 09/47] fix: skip an option with a malformed value unless
 paranoid

---
 oa/rules/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 1742080..453d78f 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -133,6 +133,10 @@ class PADParser(object):
                 except oa.errors.PluginLoadError as e:
                     warnings.warn(str(e))
                     self.ctxt.log.warn("%s", e)
+                except oa.errors.PluginError as e:
+                    self.ctxt.err("%s:%s %s", filename, line_no + 1, e)
+                    if self.ctxt.paranoid:
+                        raise
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
-- 
2.43.0


From 2e6dd902748d3642a301cc21cc56daa9cf162828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 10/47] fix: select among four scores also when the first one
 is zero

---
 oa/rules/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index a36bdc2..b03c309 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -73,7 +73,7 @@ class BaseRule(object):
                 self.score = 0
                 return
 
-        if len(self._scores) != 4 or self.score == 0:
+        if len(self._scores) != 4:
             # Nothing to do
             return
         flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]
-- 
2.43.0


From ee2bb8ca391091d45a2f44572ac80aae882c1956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 11/47] fix: record the description of a short-circuited match

---
 oa/plugins/short_circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index a427a81..e72a95f 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -36,6 +36,11 @@ class ShortCircuitRule(object):
         msg.plugin_tags["SC"] = "%s (%s)" % (self.rule.name, self.stype)
         # Add the score of the current rule (this will
         # be skipped in the ruleset otherwise
+        if isinstance(result, str):
+            msg.rules_descriptions[self.rule.name] = result
+            result = True
+        else:
+            msg.rules_descriptions[self.rule.name] = self.rule.description
         msg.rules_checked[self.rule.name] = result
         msg.score += self.rule.score
 
-- 
2.43.0


From 9846b99626402ffacc10dafe0b813f6579616a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 12/47] fix: fold multi-line header values so they do not end
 the header block

---
 oa/rules/ruleset.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index d7eda12..a5425ee 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -178,7 +178,7 @@ class RuleSet(object):
             newmsg = self._get_bounce_message(msg)
         if self.conf["report_safe"] == 0:
             newmsg.add_header("X-Spam-Report",
-                              self.get_matched_report(msg))
+                              self._fold(self.get_matched_report(msg)))
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
         if spam:
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
@@ -202,7 +202,15 @@ class RuleSet(object):
             if remove:
                 del newmsg[name]
             else:
-                newmsg.add_header(name, self._interpolate(value, msg))
+                newmsg.add_header(
+                    name, self._fold(self._interpolate(value, msg)))
+
+    @staticmethod
+    def _fold(value):
+        """Make the lines of a multi-line header value continuation lines,
+        otherwise the first of them ends the header block.
+        """
+        return "\n ".join(value.splitlines())
 
     def _get_bounce_message(self, msg):
         """Create a bounce message from the original."""
-- 
2.43.0


From d8c4d7357d804fee47715a05c52e5a1b2b16e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 13/47] fix: header rules: exact exists: prefix, unknown
 modifiers are invalid rules

---
 oa/rules/header.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 38c9a94..1b91f58 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -33,6 +33,7 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
             kwargs["header_name"] = header_name.strip()
             if mod == "raw":
                 return _PatternMimeRawHeaderRule(name, **kwargs)
+            raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
         else:
             kwargs["header_name"] = header_name.strip()
             return _PatternMimeHeaderRule(name, **kwargs)
@@ -108,12 +109,15 @@ class HeaderRule(oa.rules.base.BaseRule):
                     return _PatternAddrHeaderRule(name, **kwargs)
                 if mod == "name":
                     return _PatternNameHeaderRule(name, **kwargs)
+                raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
             else:
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
-            kwargs["header_name"] = value.lstrip("exists:").strip()
+            kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
+        else:
+            raise oa.errors.InvalidRule(name, "Missing match operator")
 
 
 class _ExistsHeaderRule(HeaderRule):
-- 
2.43.0


From c951d64ea4996e96797e5cc7aa9dafbf85aa6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 14/47] fix: keep the priority of mimeheader rules

---
 oa/rules/header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 1b91f58..a1274c9 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -47,7 +47,9 @@ class _PatternMimeHeaderRule(MimeHeaderRule):
     def __init__(self, name, pattern=None, header_name=None, score=None,
                  desc=None, priority=0, tflags=None):
         super(_PatternMimeHeaderRule, self).__init__(name, score=score,
-                                                     desc=desc, tflags=tflags)
+                                                     desc=desc,
+                                                     priority=priority,
+                                                     tflags=tflags)
         self._header_name = header_name
         self._pattern = pattern
 
-- 
2.43.0


From 53f59b4a2bc965074b1167409dc336189e19f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 15/47] fix: strip only the opening delimiter of a pattern,
 reject an empty one

---
 oa/regex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index f7de36b..76d2673 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -85,14 +85,14 @@ def perl2re(pattern, match_op="=~"):
     """Convert a Perl type regex to a Python one."""
     # We don't need to consider the pre-flags
     pattern = pattern.strip().lstrip("mgs")
-    delim = pattern[0]
+    delim = pattern[:1]
     try:
         rev_delim = DELIMS[delim]
     except KeyError:
         raise oa.errors.InvalidRegex("Invalid regex delimiter %r in %r" %
                                      (delim, pattern))
     try:
-        pattern, flags_str = pattern.lstrip(delim).rsplit(rev_delim, 1)
+        pattern, flags_str = pattern[1:].rsplit(rev_delim, 1)
     except ValueError:
         raise oa.errors.InvalidRegex("Invalid regex %r. Please make sure you "
                                       "have escaped all the special characters "
-- 
2.43.0


From 866432338843f6b5f3f888b8365b5d739b0d2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:52 +0000
Subject: [PATCH 16/47] fix: eval rules: exact eval: prefix, commas inside
 string arguments

---
 oa/rules/eval_.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 0bba136..4156bc5 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -36,8 +36,7 @@ class EvalRule(oa.rules.base.BaseRule):
             eval_rule_name, eval_args = _EVAL_RULE_P.match(eval_rule).groups()
             self.eval_rule_name = eval_rule_name
             if eval_args:
-                self.eval_args = tuple(
-                        eval(arg) for arg in eval_args.split(","))
+                self.eval_args = eval("(%s,)" % eval_args)
             else:
                 self.eval_args = tuple()
         except (TypeError, ValueError, AttributeError):
@@ -79,7 +78,10 @@ class EvalRule(oa.rules.base.BaseRule):
     @staticmethod
     def get_rule_kwargs(data):
         kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
-        kwargs["eval_rule"] = data['value'].lstrip('eval:').strip()
+        eval_rule = data['value'].strip()
+        if eval_rule.startswith('eval:'):
+            eval_rule = eval_rule[len('eval:'):].strip()
+        kwargs["eval_rule"] = eval_rule
         if "target" in data:
             kwargs["target"] = data['target']
         return kwargs
-- 
2.43.0


From 06fb9c8fc4d99f70b69c717618c2364f31447371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 17/47] fix: nested plugin conditions, exact else and endif
 keywords

---
 oa/rules/parser.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 453d78f..1128196 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -106,6 +106,9 @@ class PADParser(object):
         self.results = collections.OrderedDict()
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
         self._ignore = False
+        # For each condition that encloses the current line, whether the
+        # lines of its current branch are used.
+        self._conditions = []
 
     @contextlib.contextmanager
     def _paranoid(self, *exceptions):
@@ -151,15 +154,24 @@ class PADParser(object):
         #     self._ignore = True
         #     return
 
-        if line.startswith("endif"):
-            self._ignore = False
+        keyword = line.split("#", 1)[0].split(None, 1)
+        keyword = keyword[0] if keyword else ""
+
+        if keyword == "endif":
+            if self._conditions:
+                self._conditions.pop()
+            self._ignore = not all(self._conditions)
             return
 
-        if line.startswith("else"):
-            if self._ignore:
-                self._ignore = False
-            else:
-                self._ignore = True
+        if keyword == "else":
+            if self._conditions:
+                self._conditions[-1] = not self._conditions[-1]
+            self._ignore = not all(self._conditions)
+            return
+
+        if self._ignore and keyword in ("if", "ifplugin"):
+            # Nested in a block that is not used.
+            self._conditions.append(True)
             return
 
         if line.startswith("require_version"):
@@ -247,6 +259,9 @@ class PADParser(object):
                 self.results[name][rtype] = value
 
         else:
+            if rtype == "if":
+                # XXX We don't support these, the first branch is used.
+                self._conditions.append(True)
             if not self.ctxt.hook_parse_config(rtype, value):
                 self.ctxt.err("%s:%s Ignoring unknown configuration line: %s",
                               filename, line_no, line)
@@ -270,9 +285,11 @@ class PADParser(object):
             plugin_name = plugin_name.rsplit(".", 1)[1]
         except IndexError:
             pass
-        if plugin_name not in self.ctxt.plugins:
+        loaded = plugin_name in self.ctxt.plugins
+        if not loaded:
             self.ctxt.log.debug("Plugin %s not loaded, skipping.", plugin_name)
-            self._ignore = True
+        self._conditions.append(loaded)
+        self._ignore = not all(self._conditions)
 
     def _handle_loadplugin(self, value):
         """Handles the 'loadplugin' keyword."""
-- 
2.43.0


From 23bd1ba02e6f55101daad1becf17204e371f6141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 18/47] fix: a rule with a malformed score is invalid, it does
 not abort loading

---
 oa/rules/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index b03c309..fac370f 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -113,6 +113,8 @@ class BaseRule(object):
             kwargs["score"] = list(map(float, data["score"].strip().split()))
         except KeyError:
             pass
+        except ValueError:
+            raise oa.errors.InvalidRule("score", data["score"])
         try:
             kwargs["desc"] = data["describe"].strip()
         except KeyError:
-- 
2.43.0


From 9700ae1be209d7de164374867688adafaa580bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:40 +0000
Subject: [PATCH 19/47] fix: skip a malformed add_header or remove_header
 unless paranoid

---
 oa/rules/ruleset.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index a5425ee..5bfb9a8 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -154,12 +154,15 @@ class RuleSet(object):
         instead of added.
         """
         self.ctxt.log.debug("Adding header rule: %s (%s)", value, remove)
-        if not remove:
-            msg_status, header_name, header_value = value.split(None, 2)
-            header_value = self._convert_tags(header_value)
-        else:
-            msg_status, header_name = value.split(None, 1)
-            header_value = None
+        try:
+            if not remove:
+                msg_status, header_name, header_value = value.split(None, 2)
+                header_value = self._convert_tags(header_value)
+            else:
+                msg_status, header_name = value.split(None, 1)
+                header_value = None
+        except ValueError:
+            raise oa.errors.InvalidRule("add_header", value)
 
         msg_status = msg_status.lower()
         if msg_status not in self.header_mod:
@@ -308,10 +311,14 @@ class RuleSet(object):
             self._convert_tags(value)
             for value in self.conf["unsafe_report"]
         )
-        for value in self.conf["add_header"]:
-            self._add_header_rule(value, False)
-        for value in self.conf["remove_header"]:
-            self._add_header_rule(value, True)
+        for option, remove in (("add_header", False), ("remove_header", True)):
+            for value in self.conf[option]:
+                try:
+                    self._add_header_rule(value, remove)
+                except oa.errors.InvalidRule as e:
+                    self.ctxt.err(e)
+                    if self.ctxt.paranoid:
+                        raise
 
         for value in self.conf['dns_query_restriction']:
             try:
-- 
2.43.0


From 2745129d5770f15f946b54eb7d65e272a331309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:15 +0000
Subject: [PATCH 20/47] fix: meta rules: negation binds tightly, != works, a
 syntax error is an invalid rule

---
 oa/rules/meta.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index d9e85ba..60ee830 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -12,7 +12,6 @@ from oa.regex import Regex
 CONVERT = (
     ("&&", " and "),
     ("||", " or "),
-    ("!", " not "),
 )
 
 # Simple protection against recursion, or infinite loops with the meta rules.
@@ -20,6 +19,33 @@ MAX_RECURSION = 10
 
 _SUBRULE_P = Regex(r"([_a-zA-Z]\w*)(?=\W|$)")
 
+_NEGATION_P = Regex(r"!(?!=)\s*")
+
+# The operand of a negation, unless it is an expression in parentheses.
+_OPERAND_P = Regex(r"\d+\.\d*|\w+(\(msg\))?")
+
+
+def _convert_negations(rule):
+    """Convert every !operand to (not operand), in Perl it binds tighter than
+    the other operators.
+    """
+    for negation in reversed(list(_NEGATION_P.finditer(rule))):
+        start = end = negation.end()
+        if rule[start:start + 1] == "(":
+            depth = 0
+            for end in range(start, len(rule)):
+                depth += {"(": 1, ")": -1}.get(rule[end], 0)
+                if depth == 0:
+                    break
+            end += 1
+        else:
+            operand = _OPERAND_P.match(rule[start:])
+            if operand is not None:
+                end += operand.end()
+        rule = "%s(not %s)%s" % (rule[:negation.start()], rule[start:end],
+                                 rule[end:])
+    return rule
+
 
 class MetaRule(oa.rules.base.BaseRule):
     """These rules are boolean or arithmetic combinations of other rules."""
@@ -49,10 +75,15 @@ class MetaRule(oa.rules.base.BaseRule):
         rule = _SUBRULE_P.sub(r"\1(msg)", self.rule)
         for operator, repl in CONVERT:
             rule = rule.replace(operator, repl)
+        rule = _convert_negations(rule)
         rule_match = "match = lambda msg: %s" % rule
         # XXX we should check for potentially unsafe code or run it in
         # XXX RestrictedPython.
-        _code_obj = compile(rule_match, "<meta>", "exec")
+        try:
+            _code_obj = compile(rule_match, "<meta>", "exec")
+        except (SyntaxError, ValueError):
+            raise oa.errors.InvalidRule(self.name, "Invalid expression %r" %
+                                        self.rule)
 
         oa.rules.base.BaseRule.postparsing(self, ruleset)
         for subrule_name in subrules:
-- 
2.43.0


From 6c7abaab297ba7849a8d0100626b7b30702861d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 21/47] fix: an undecodable header has an empty value instead
 of None

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 1ff8278..8cb99a7 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -200,7 +200,7 @@ class Message(oa.context.MessageContext):
         try:
             decoded_header = email.header.decode_header(header)
         except (ValueError, email.header.HeaderParseError):
-            return
+            return ""
 
         for value, encoding in decoded_header:
             if encoding:
-- 
2.43.0


From 6b49af221dbe723031496353a2048c2a288d9dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:50 +0000
Subject: [PATCH 22/47] fix: originating IP headers are not added to the cached
 Received headers

---
 oa/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 8cb99a7..cdcb3cb 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -471,7 +471,7 @@ class Message(oa.context.MessageContext):
         self.text = " ".join(body)
         self.raw_text = "\n".join(raw_body)
 
-        received_headers = self.get_decoded_header("Received")
+        received_headers = list(self.get_decoded_header("Received"))
         for header in self.ctxt.conf["originating_ip_headers"]:
             headers = ["X-ORIGINATING-IP: %s" % x
                        for x in self.get_decoded_header(header)]
-- 
2.43.0


From e1c958ad3bd3c5a50cb9749cb1b632f5e6af4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:53 +0000
Subject: [PATCH 23/47] fix: unloading a plugin keeps the tests and commands
 another plugin has redefined

---
 oa/context.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 1f53d5f..1f10bcd 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -244,11 +244,19 @@ class GlobalContext(_Context):
             raise oa.errors.PluginLoadError("Plugin %s not loaded." % name)
 
         plugin = self.plugins[name]
-        # Delete any defined rules
+        # Delete any defined rules, except for the ones that another plugin
+        # has redefined since.
+        others = [other for key, other in self.plugins.items() if key != name]
         for rule in plugin.eval_rules:
-            self.eval_rules.pop(rule, None)
+            if not any(rule in other.eval_rules and
+                       self.eval_rules.get(rule) == getattr(other, rule)
+                       for other in others):
+                self.eval_rules.pop(rule, None)
         for rule_type in plugin.cmds or ():
-            self.cmds.pop(rule_type, None)
+            if not any(rule_type in (other.cmds or ()) and
+                       self.cmds.get(rule_type) is other.cmds[rule_type]
+                       for other in others):
+                self.cmds.pop(rule_type, None)
         self.pop_plugin_data(name)
         del self.plugins[name]
 
-- 
2.43.0


From 81e687ff832fe33b575f4c502494a55aed267db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:35 +0000
Subject: [PATCH 24/47] fix: a user's rule set has the options and plugins of
 the main configuration

---
 oa/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/server.py b/oa/server.py
index b7b4419..b2ea89f 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -101,6 +101,11 @@ class Server(spoon.server.TCPSpoon):
                 self._ruleset.ctxt.paranoid,
                 self._ruleset.ctxt.ignore_unknown
             )
+            # The options and the plugins of the main configuration are not
+            # part of the parsed results.
+            for filename in oa.config.get_config_files(self.configpath,
+                                                       self.sitepath):
+                parser.parse_file(filename)
             # Use the already parsed results and pass the user
             # ones.
             parser.results = copy.deepcopy(self._parser_results)
-- 
2.43.0


From 59aaf33037b8218f31f97f5ee434526c4a89f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:13 +0000
Subject: [PATCH 25/47] fix: every failure of the resolver is an answer without
 records

---
 oa/dns_interface.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 5ebca20..5ba086a 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -182,14 +182,13 @@ class DNSInterface(object):
 
     def _query(self, qname, qtype):
         self.log.debug("Querying %s %s", qname, qtype)
-        if qtype == "PTR":
-            qname = dns.reversename.from_address(qname)
         try:
+            if qtype == "PTR":
+                qname = dns.reversename.from_address(qname)
             result = self._resolver.query(qname, qtype)
             self.log.debug("Got %s for %s %s", result, qname, qtype)
             return result
-        except (dns.resolver.NoAnswer, dns.resolver.NoNameservers,
-                dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
+        except dns.exception.DNSException as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
         except (ValueError, IndexError, struct.error) as e:
-- 
2.43.0


From 21ccb5d98435071f2ea5ffd0251dcfa8a64aee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:39 +0000
Subject: [PATCH 26/47] fix: a percent sign in a report or header text is not
 part of a format

---
 oa/rules/ruleset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 5bfb9a8..ba9e960 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -122,7 +122,9 @@ class RuleSet(object):
 
     def _convert_tags(self, text):
         """Replace _TAGS_ with placeholders. %(TAG)s"""
-        text = text.strip("'\"")
+        # The result is a format string, so any other percent sign has
+        # to be escaped.
+        text = text.strip("'\"").replace("%", "%%")
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag[1])
         return _TAG_RE.sub(r"%(\2)s", text)
-- 
2.43.0


From 1630390f714bbfc462d68fa5bc8a99f53f6572e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 27/47] fix: relays without an address have no IP to look up

---
 oa/message.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index cdcb3cb..5095387 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -249,7 +249,9 @@ class Message(oa.context.MessageContext):
     def get_header_ips(self):
         values = list()
         for header in self.received_headers:
-            values.append(ipaddress.ip_address(header["ip"]))
+            # Not every relay has an address
+            if header["ip"]:
+                values.append(ipaddress.ip_address(header["ip"]))
         return values
 
     @_memoize("addr_headers")
-- 
2.43.0


From 3aad11d51bed777d932972bfccfe6c7d06b393d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 28/47] fix: what only looks like an IP address in a Received
 header is not one

---
 oa/received_parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 1f4b26c..66fb46b 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -11,6 +11,10 @@ It extracts the following metadata:
 """
 
 import re
+import ipaddress
+
+from builtins import str
+
 from oa.regex import Regex
 
 LOCALHOST = Regex(r"""
@@ -535,13 +539,19 @@ class ReceivedParser(object):
         """
         ip = ""
         ips = IP_ADDRESS.findall(header.split(" by ")[0])
-        no_ips = len(ips)
+        no_ips = 0
         private_ips = list()
         count = 0
         for item in ips:
             clean_ip = item.strip("[ ]();\n")
             clean_ip = clean_ip.lower().replace('ipv6:','')
             clean_ip = clean_ip.lower().replace('::ffff:','')
+            try:
+                ipaddress.ip_address(str(clean_ip))
+            except ValueError:
+                # It only looks like an address (e.g. 01.2.3.4)
+                continue
+            no_ips += 1
             if IP_PRIVATE.search(clean_ip):
                 count += 1
                 private_ips.append(clean_ip)
-- 
2.43.0


From ba9dd2c7a130f28966b3e64989adf028ada6bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:23 +0000
Subject: [PATCH 29/47] fix: senders and relays of whitelist_from_rcvd are
 compared without regard to case

---
 oa/plugins/wlbl_eval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 263d9cf..0b89141 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -399,7 +399,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         for white_addr in self[list_name]:
             regexp = white_addr.replace("*", ".*")
             for domain in self[list_name][white_addr]:
-                if Regex(regexp).search(address):
+                if Regex(regexp, re.I).search(address):
                     match = self.check_rcvd(domain, relays)
                     if match == 1:
                         return 1
@@ -422,6 +422,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
                     match = 1
                     break
             except ValueError:
+                wl_ip = wl_ip.lower()
                 rdns = relay['rdns'].lower()
                 if wl_ip == rdns or rdns.endswith(".%s" % wl_ip):
                     match = 1
-- 
2.43.0


From 328222528b86e2f712b22e1a9ddfe09df1fe8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:21 +0000
Subject: [PATCH 30/47] fix: tvd_vertical_words with quoted bounds never
 matched (a string was compared to the ratio)

---
 oa/plugins/body_eval.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/body_eval.py b/oa/plugins/body_eval.py
index b0e6b25..ca71f9b 100644
--- a/oa/plugins/body_eval.py
+++ b/oa/plugins/body_eval.py
@@ -190,6 +190,7 @@ class BodyEval(oa.plugins.base.BasePlugin):
           and False otherwise.
 
         """
+        minr, maxr = float(minr), float(maxr)
         if target == "rawbody":
             text = msg.raw_text
         else:
-- 
2.43.0


From 8e6556619bc94933384cb9442a7e343fc3c506f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:06 +0000
Subject: [PATCH 31/47] fix: ham was never submitted for auto-learning (the
 spam verdict was tested twice)

---
 oa/plugins/auto_learn_threshold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 3039752..b1399a4 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -170,5 +170,5 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_spam"):
+            elif self.get_local(msg, "learner_thinks_ham"):
                 bayes.plugin_revoke(msg)
-- 
2.43.0


From 37c7d52ae603161613397750b5c39e3e0e9f7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:06 +0000
Subject: [PATCH 32/47] fix: auto-learning counted the scores of all rules, not
 only of those that matched

---
 oa/plugins/auto_learn_threshold.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index b1399a4..d95d9bf 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -166,7 +166,10 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         and submits it
         """
         bayes = self.ctxt.plugins.get("BayesPlugin", None)
-        self.prepare_learning_metadata(msg, tests=ruleset.checked)
+        # Only the rules that matched this message count.
+        tests = dict((name, rule) for name, rule in ruleset.checked.items()
+                     if msg.rules_checked.get(name))
+        self.prepare_learning_metadata(msg, tests=tests)
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-- 
2.43.0


From 48f0d6a00ac3e97013922776a72048c164c1f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:06 +0000
Subject: [PATCH 33/47] fix: the auto-whitelist could not import its table with
 SQLAlchemy 1.4 (NameError on every message)

---
 oa/plugins/awl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 008d3d8..7056640 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -30,7 +30,7 @@ try:
     from sqlalchemy.types import String
     from sqlalchemy.types import Integer
     from sqlalchemy.sql.schema import PrimaryKeyConstraint
-    from sqlalchemy.ext.declarative.api import declarative_base
+    from sqlalchemy.ext.declarative import declarative_base
 
     Base = declarative_base()
     has_sqlalchemy = True
-- 
2.43.0


From 013ee3014d3c43ddc3969c71636a40c133528e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:46 +0000
Subject: [PATCH 34/47] fix: the auto-whitelist in MySQL read and overwrote the
 history of any sender

---
 oa/plugins/awl.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 7056640..3271404 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -170,20 +170,16 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
                        "signedby=%s AND ip=%s",
                        (self.ctxt.username, address, signed_by, ip))
-        try:
-            result = cursor.fetchall()
-            if result:
-                result = result[0]
-        except pymysql.DatabaseError:
+        result = cursor.fetchall()
+        if result:
+            result = result[0]
+        else:
+            # The history from an unknown origin moves to the first known one
             result = cursor.execute(
-                "SELECT * FROM awl WHERE username=%s AND email=%s AND "
+                "UPDATE awl SET ip=%s WHERE username=%s AND email=%s AND "
                 "signedby=%s AND ip=%s",
-                (self.ctxt.username, address, signed_by, "none"))
-
-            if result:
-                result = cursor.execute(
-                    "UPDATE awl SET ip=%s", (ip))
-                conn.commit()
+                (ip, self.ctxt.username, address, signed_by, "none"))
+            conn.commit()
         if not result:
             result = cursor.execute(
                 "INSERT INTO awl VALUES (%s, %s, %s, %s, %s, %s) ",
@@ -268,7 +264,11 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                                    )
 
             cursor = conn.cursor()
-            cursor.execute("SELECT totscore, count FROM awl")
+            awl_key = (self.ctxt.username, addr, signed_by,
+                       self.ip_to_awl_key(origin_ip) if origin_ip else "none")
+            cursor.execute(
+                "SELECT totscore, count FROM awl WHERE username=%s AND "
+                "email=%s AND signedby=%s AND ip=%s", awl_key)
             entry_totscore, entry_count = cursor.fetchall()[0]
 
         except pymysql.Error:
@@ -306,8 +306,9 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
         try:
             result = cursor.execute(
-                "UPDATE awl SET count=%s, totscore=%s",
-                (entry_count, entry_totscore))
+                "UPDATE awl SET count=%s, totscore=%s WHERE username=%s AND "
+                "email=%s AND signedby=%s AND ip=%s",
+                (entry_count, entry_totscore) + awl_key)
         except pymysql.Error:
             return False
 
-- 
2.43.0


From f3855f62219dfab6d0b2260d6d56888163b5eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:13 +0000
Subject: [PATCH 35/47] fix: bayes scored with the least significant tokens and
 with other tokens' probabilities

The tokens were sorted by ascending strength before the first 150 were
taken, probabilities of tokens that have none were dropped before they
were paired with their tokens, and without spam or ham history scanning
failed with a TypeError.
---
 oa/plugins/bayes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 65a1f6d..fc5bc87 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1091,7 +1091,8 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         """Compute the probability that a token is spammy for each
         token."""
         if not ns or not nn:
-            return
+            # Without any spam or ham history nothing is known about a token.
+            return [None] * len(tokensdata)
 
         # Ignore low-freq tokens below this s+n threshold.
         threshold = 1
@@ -1154,9 +1155,9 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX This has a timer in SA.
         msgtokens = dict(t for t in self.tokenise(msg))
         tokensdata = list(d for d in self.store.tok_get_all(msgtokens) if d is not None)
-        probabilities_ref = (ref for ref in self._compute_prob_for_all_tokens(tokensdata, ns, nn) if ref is not None)
+        probabilities = self._compute_prob_for_all_tokens(tokensdata, ns, nn)
         pw = {}
-        for tokendata, prob in zip(tokensdata, probabilities_ref):
+        for tokendata, prob in zip(tokensdata, probabilities):
             if prob is None:
                 continue
             token, tok_spam, tok_ham, atime = tokendata
@@ -1194,7 +1195,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # Robinson's formula.
         pw_keys = pw.keys()
         # XXX This is really inefficient.
-        pw_keys = sorted(pw_keys, key=tok_strength.get)
+        pw_keys = sorted(pw_keys, key=tok_strength.get, reverse=True)
         # pw_keys.sort(cmp=lambda a, b: tok_strength(b) > tok_strength(a))
         pw_keys = pw_keys[:N_SIGNIFICANT_TOKENS]
 
-- 
2.43.0


From 226373150f9f99d41c99e1cae0253a71dfbecd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:13 +0000
Subject: [PATCH 36/47] fix: the bayes tokeniser never ended on host names and
 failed on mail addresses

The replacement was not a raw string, so the same one character string
was produced for ever; and the generator of the tokens of an address was
added as if it were one token.
---
 oa/plugins/bayes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index fc5bc87..8740a75 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -845,13 +845,13 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             # Are we in the body? If so, apply some body-specific breakouts.
             if region in (1, 2):
                 if CHEW_BODY_MAILADDRS and re.match(r"\S\@\S", token):
-                    rettokens.add(self._tokenise_mail_addrs(token))
+                    rettokens.update(self._tokenise_mail_addrs(token))
                 elif CHEW_BODY_URIS and re.match(r"\S\.[a-z]", token, re.I):
                     rettokens.add(u"UD:" + token)  # The full token.
                     bit = token
                     while True:
-                        bit = re.sub(r"^[^\.]+\.(.+)$", "\1", bit)
-                        if not bit:
+                        bit, stripped = re.subn(r"^[^\.]+\.(.+)$", r"\1", bit)
+                        if not stripped:
                             break
                         rettokens.add("UD:" + bit)  # UD = URL domain
 
-- 
2.43.0


From 04fccd208dcf3282b7047b57e8968c3a22161782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:13 +0000
Subject: [PATCH 37/47] fix: bayes could not learn a message: the stores never
 inserted or added anything

Asking for a message that was never learned failed, marking one as
learned and counting its tokens only updated rows that nobody inserted,
the counts were set to 1 or -1 instead of changed by that, tokens were
passed with their texts instead of by their hashes, and forgetting a
message failed (SQLAlchemy) or was not committed (MySQL).
---
 oa/db/bayes/mysql.py      | 53 +++++++++++++++++++-------
 oa/db/bayes/sqlalchemy.py | 79 +++++++++++++++++++++++++++------------
 oa/plugins/bayes.py       |  4 +-
 3 files changed, 97 insertions(+), 39 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index acd0324..b177aa9 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -57,23 +57,27 @@ class Store(object):
         cursor = self.conn.cursor()
         cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                        (msgid,))
-        result = cursor.fetchone()[0]
+        row = cursor.fetchone()
         cursor.close()
-        return result
+        return row[0] if row else None
 
     def seen_delete(self, msgid):
+        """Remove the "seen" flag of the specified message."""
         cursor = self.conn.cursor()
         cursor.execute(
-            "DELETE FROM bayes_seen WHERE msgid = %s",
+            "DELETE FROM bayes_seen WHERE msgid=%s",
             (msgid,)
         )
+        self.conn.commit()
         cursor.close()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
         cursor = self.conn.cursor()
+        cursor.execute("DELETE FROM bayes_seen WHERE msgid=%s", (msgid,))
         cursor.execute(
-            "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
+            "INSERT INTO bayes_seen (id, msgid, flag) VALUES (0, %s, %s)",
+            (msgid, flag)
         )
         self.conn.commit()
         cursor.close()
@@ -88,26 +92,47 @@ class Store(object):
         cursor.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
         )
-        result = cursor.fetchone()
+        row = cursor.fetchone()
         cursor.close()
-        return result
+        return (row[0], row[1]) if row else (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
+        """Add to the spam and ham counts for the database."""
         cursor = self.conn.cursor()
-        cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
-                       (spam, ham))
+        cursor.execute(
+            "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
+        )
+        row = cursor.fetchone()
+        if row:
+            cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
+                           (max(row[0] + spam, 0), max(row[1] + ham, 0)))
+        else:
+            cursor.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', %s, %s)", (max(spam, 0), max(ham, 0))
+            )
         self.conn.commit()
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Add to the spam and ham counts, and set the access time for the
+        specified tokens."""
         cursor = self.conn.cursor()
         for token in tokens:
-            cursor.execute(
-                "UPDATE bayes_token "
-                "SET spam_count=%s, ham_count=%s, atime=%s "
-                "WHERE token=%s", (spam, ham, msgatime, token))
+            row = self.tok_get(token)
+            if row:
+                cursor.execute(
+                    "UPDATE bayes_token "
+                    "SET spam_count=%s, ham_count=%s, atime=%s "
+                    "WHERE token=%s",
+                    (max(row[0] + spam, 0), max(row[1] + ham, 0),
+                     msgatime, token))
+            else:
+                cursor.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, %s, %s, %s, %s)",
+                    (token, max(spam, 0), max(ham, 0), msgatime))
         self.conn.commit()
         cursor.close()
 
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 567a655..bf1e601 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -131,21 +131,28 @@ class Store(object):
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
-        return self.conn.execute(
+        row = self.conn.execute(
             "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()[0]
+            {'msgid': msgid}).fetchone()
+        return row[0] if row else None
 
-    def seen_delete(self, id, msgid):
+    def seen_delete(self, msgid):
+        """Remove the "seen" flag of the specified message."""
         self.conn.execute(
-            "DELETE FROM bayes_seen WHERE msgid = :msgid",
+            "DELETE FROM bayes_seen WHERE msgid=:msgid",
             {"msgid": msgid}
         )
+        self.conn.commit()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
         self.conn.execute(
-            "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
-            {"flag": flag, "msgid": msgid})
+            "DELETE FROM bayes_seen WHERE msgid=:msgid",
+            {"msgid": msgid})
+        self.conn.execute(
+            "INSERT INTO bayes_seen (id, msgid, flag) "
+            "VALUES (0, :msgid, :flag)",
+            {"msgid": msgid, "flag": flag})
         self.conn.commit()
 
     def cleanup(self):
@@ -154,31 +161,57 @@ class Store(object):
 
     def nspam_nham_get(self):
         """Get the spam and ham counts for the database."""
-        return self.conn.execute(
+        row = self.conn.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
         ).fetchone()
+        return (row[0], row[1]) if row else (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
-        self.conn.execute(
-            "UPDATE bayes_vars "
-            "SET spam_count=:spam_count, ham_count=:ham_count",
-            {'spam_count': spam, 'ham_count': ham}
-        )
+        """Add to the spam and ham counts for the database."""
+        row = self.conn.execute(
+            "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
+        ).fetchone()
+        if row:
+            self.conn.execute(
+                "UPDATE bayes_vars "
+                "SET spam_count=:spam_count, ham_count=:ham_count",
+                {'spam_count': max(row[0] + spam, 0),
+                 'ham_count': max(row[1] + ham, 0)}
+            )
+        else:
+            self.conn.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', :spam_count, :ham_count)",
+                {'spam_count': max(spam, 0), 'ham_count': max(ham, 0)}
+            )
         self.conn.commit()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Add to the spam and ham counts, and set the access time for the
+        specified tokens."""
         for token in tokens:
-            self.conn.execute(
-                "UPDATE bayes_token "
-                "SET spam_count=:spam_count, ham_count=:ham_count, "
-                "atime=:atime WHERE token=:token",
-                {
-                    'spam_count': spam, 'ham_count': ham,
-                    'atime': msgatime, 'token': token
-                }
-            )
+            row = self.tok_get(token)
+            if row:
+                self.conn.execute(
+                    "UPDATE bayes_token "
+                    "SET spam_count=:spam_count, ham_count=:ham_count, "
+                    "atime=:atime WHERE token=:token",
+                    {
+                        'spam_count': max(row[0] + spam, 0),
+                        'ham_count': max(row[1] + ham, 0),
+                        'atime': msgatime, 'token': token
+                    }
+                )
+            else:
+                self.conn.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, :token, :spam_count, :ham_count, :atime)",
+                    {
+                        'spam_count': max(spam, 0), 'ham_count': max(ham, 0),
+                        'atime': msgatime, 'token': token
+                    }
+                )
         self.conn.commit()
 
     def tok_touch_all(self, touch_tokens, msgatime):
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 8740a75..3ac3558 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -675,7 +675,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # a safety measure.
         if msgatime - time.time() > 86400:
             msgatime = time.time()
-        tokens = self.tokenise(msg)
+        tokens = dict(self.tokenise(msg))
         # XXX SA puts this in a timer.
         if isspam:
             self.store.nspam_nham_change(1, 0)
@@ -723,7 +723,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             self.ctxt.log.debug("bayes: forget: msgid %s not learnt, ignored",
                                 msgid)
             return False
-        tokens = self.tokenise(msg)
+        tokens = dict(self.tokenise(msg))
         if isspam:
             self.store.nspam_nham_change(-1, 0)
             self.store.multi_tok_count_change(-1, 0, tokens, msg.receive_date)
-- 
2.43.0


From a67caea272b6a544caa64ab771420e8aa07ef1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:13 +0000
Subject: [PATCH 38/47] fix: a message whose Received header has no valid date
 could not be scanned or learned

calendar.timegm(None) fails.
---
 oa/message.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 5095387..f42f164 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -591,8 +591,11 @@ class Message(oa.context.MessageContext):
                 ts = header.rsplit(";", 1)[1]
             except IndexError:
                 continue
-            ts = email.utils.parsedate(ts)
-            return calendar.timegm(ts)
+            try:
+                return calendar.timegm(email.utils.parsedate(ts))
+            except (TypeError, ValueError):
+                # Not a date
+                continue
         # SA will look in other headers too. Perhaps we should also?
         return time.time()
 
-- 
2.43.0


From 454b17276cfbd893fb73f1059d515fa16588f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:45 +0000
Subject: [PATCH 39/47] fix: bayes learned and scored a message with the text
 of the one parsed last

The text of the message being parsed was kept in the global data of the
plugin.
---
 oa/plugins/bayes.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 3ac3558..ae3f217 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -504,26 +504,28 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         self.set_local(msg, 'bayes_token_info_hammy', [])
         self.set_local(msg, 'bayes_token_info_spammy', [])
         self.set_local(msg, 'count', 0)
-        self['rendered'] = [msg.msg['subject'] or '\n']
-        self['visible_rendered'] = [msg.msg['subject'] or '\n']
-        self['invisible_rendered'] = []
+        self.set_local(msg, 'rendered', [msg.msg['subject'] or '\n'])
+        self.set_local(msg, 'visible_rendered', [msg.msg['subject'] or '\n'])
+        self.set_local(msg, 'invisible_rendered', [])
 
     def extract_metadata(self, msg, payload, text, part):
         if part.get_content_type() == 'text/plain':
-            self['rendered'].append(text)
-            self['visible_rendered'].append(text)
+            self.get_local(msg, 'rendered').append(text)
+            self.get_local(msg, 'visible_rendered').append(text)
         if part.get_content_type() == 'text/html':
             # XXX SA parses these and checks for [in]visible content
             pass
 
     def parsed_metadata(self, msg):
-        self.ctxt.log.debug("rendered body %s", self['rendered'])
-        self.ctxt.log.debug("invisible body %s", self['invisible_rendered'])
-        self['rendered'] = "\n".join(self['rendered'])
-        self['invisible_rendered'] = "\n".join(self['invisible_rendered'])
-        self[u"bayes_token_body"] = self.get_body_text_array_common(self["rendered"])
-        self[u'bayes_token_inviz'] = self.get_body_text_array_common(self["invisible_rendered"])
-        self[u'bayes_token_uris'] = []  # self.get_uri_list()
+        rendered = "\n".join(self.get_local(msg, 'rendered'))
+        invisible = "\n".join(self.get_local(msg, 'invisible_rendered'))
+        self.ctxt.log.debug("rendered body %s", rendered)
+        self.ctxt.log.debug("invisible body %s", invisible)
+        self.set_local(msg, u"bayes_token_body",
+                       self.get_body_text_array_common(rendered))
+        self.set_local(msg, u'bayes_token_inviz',
+                       self.get_body_text_array_common(invisible))
+        self.set_local(msg, u'bayes_token_uris', [])  # self.get_uri_list()
 
     def finish_parsing_end(self, ruleset):
         super(BayesPlugin, self).finish_parsing_end(ruleset)
@@ -765,11 +767,11 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
     def tokenise(self, msg):
         """Convert the message to a sequence of tokens."""
         tokens = []
-        for line in self["bayes_token_body"]:
+        for line in self.get_local(msg, "bayes_token_body"):
             tokens.extend(self._tokenise_line(line, "", 1))
-        for line in self['bayes_token_uris']:
+        for line in self.get_local(msg, 'bayes_token_uris'):
             tokens.extend(self._tokenise_line(line, "", 2))
-        for line in self['bayes_token_inviz']:
+        for line in self.get_local(msg, 'bayes_token_inviz'):
             if ADD_INVIZ_TOKENS_I_PREFIX:
                 tokens.extend(self._tokenise_line(line, "I*:", 1))
             if ADD_INVIZ_TOKENS_NO_PREFIX:
-- 
2.43.0


From 84efb549e92aea379af796254b71a021886cb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 40/47] fix: forged relay rules answered every message with the
 first message's relays

---
 oa/plugins/relay_eval.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 606b62b..8e8b086 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -126,27 +126,14 @@ class RelayEval(oa.plugins.base.BasePlugin):
     def check_for_forged_received_trail(self, msg, option=None, target=None):
         """Check if there are more than one untrusted relays and verify if
         rdns is different than the other relay's by."""
-        try:
-            mismatch_from = self.get_global("mismatch_from")
-        except KeyError:
-            mismatch_from = None
-        if mismatch_from is None:
-            self._check_for_forged_received(msg)
-        else:
-            return bool(mismatch_from > 1)
+        # The values stored are those of the message checked last
+        self._check_for_forged_received(msg)
         return bool(self.get_global("mismatch_from") > 1)
 
     def check_for_forged_received_ip_helo(self, msg, option=None, target=None):
         """Verify if helo and ip are IP ADDRESSES and if they are different,
         this means that received ip is forged"""
-        try:
-            mismatch_ip_helo = self.get_global("mismatch_ip_helo")
-        except KeyError:
-            mismatch_ip_helo = None
-        if mismatch_ip_helo is None:
-            self._check_for_forged_received(msg)
-        else:
-            return bool(mismatch_ip_helo > 0)
+        self._check_for_forged_received(msg)
         return bool(self.get_global("mismatch_ip_helo") > 0)
 
     def helo_ip_mismatch(self, msg, option=None, target=None):
-- 
2.43.0


From caaeffa530205f1174cd8e4da040700f99442523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 41/47] fix: an invalid freemail wildcard domain was in force
 for the first message only

---
 oa/plugins/free_mail.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/free_mail.py b/oa/plugins/free_mail.py
index a19f232..3647e7c 100644
--- a/oa/plugins/free_mail.py
+++ b/oa/plugins/free_mail.py
@@ -65,6 +65,7 @@ class FreeMail(oa.plugins.base.BasePlugin):
                 freemail_domains.remove(domain)
                 self.ctxt.log.warn(
                     "FreeMail::Plugin Invalid freemail domain: %s", domain)
+                continue
             if '*' in domain:
                 temp = domain.replace('.', '\.')
                 temp = temp.replace('?', '.')
-- 
2.43.0


From d8e69efce548addb1d42a46c67eee9091fe93eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 42/47] fix: DKIM rules answered every message with the first
 message's signature

---
 oa/plugins/dkim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e6f8368..8b8bd80 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -57,6 +57,18 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "U": "unknown"
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        self.author_addresses = []
+        self.author_domains = []
+        self.dkim_checked_signature = 0
+        self.dkim_signed = 0
+        self.dkim_valid = 0
+        self.dkim_has_valid_author_sig = 0
+        self.dkim_signatures_dependable = 0
+        self.is_valid = 1
+        self.match_adsp = 0
+
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
 
-- 
2.43.0


From 4c78e99690e016481871a8b80030b9acbaeb6e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:20 +0000
Subject: [PATCH 43/47] fix: SPF rules that hit one message hit all the
 messages after it

---
 oa/plugins/spf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 391bfc1..55b0ee2 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -73,6 +73,13 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         "check_def_spf_whitelist_from": 0
     }
 
+    def check_start(self, msg):
+        """Forget the results of the previous message."""
+        self.spf_check = False
+        self.spf_check_helo = False
+        self.no_valid_identity = False
+        self.check_result = dict.fromkeys(self.check_result, 0)
+
     def parsed_metadata(self, msg):
         if self.get_global("ignore_received_spf_header"):
             # The plugin will ignore the spf headers and will perform
-- 
2.43.0


From b62d10c46b62140f0c4433940748a0b95e978bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:50 +0000
Subject: [PATCH 44/47] fix: an invalid blocklist sub-test was found only after
 the list had been asked

The pattern is compiled lazily, so re.error was raised when the first
answer was compared and escaped from the rule.
---
 oa/plugins/dns_eval.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/dns_eval.py b/oa/plugins/dns_eval.py
index df445ca..588e1d7 100644
--- a/oa/plugins/dns_eval.py
+++ b/oa/plugins/dns_eval.py
@@ -81,7 +81,9 @@ class DNSEval(oa.plugins.base.BasePlugin):
         if subtest is not None:
             try:
                 subtest = Regex(subtest)
-            except re.error as e:
+                # The pattern is only compiled when it is used.
+                subtest.compile()
+            except (re.error, OverflowError, TypeError) as e:
                 self.ctxt.err("Invalid regex %s: %s", subtest, e)
                 return False
 
@@ -152,7 +154,9 @@ class DNSEval(oa.plugins.base.BasePlugin):
         if subtest is not None:
             try:
                 subtest = Regex(subtest)
-            except re.error as e:
+                # The pattern is only compiled when it is used.
+                subtest.compile()
+            except (re.error, OverflowError, TypeError) as e:
                 self.ctxt.err("Invalid regex %s: %s", subtest, e)
                 return False
 
-- 
2.43.0


From 48d34398b90490aae82f1b8060ac0e86a1569b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:45 +0000
Subject: [PATCH 45/47] fix: razor2 answered the second time it was asked the
 opposite of the first

The exit status was kept for the message instead of the rule's answer: 0
means listed.
---
 oa/plugins/razor2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 4c8827a..8c4a68d 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -73,7 +73,7 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
             my_timer.cancel()
 
         if proc.returncode in (1, 0):
-            self.set_local(msg, "razor2_result", proc.returncode)
+            self.set_local(msg, "razor2_result", not proc.returncode)
         self.ctxt.log.debug(proc.returncode)
         return not proc.returncode
 
-- 
2.43.0


From 402fcbb08d2a7674eba7eb50731ea4d05e34cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:45 +0000
Subject: [PATCH 46/47] fix: messages were reported to and revoked from razor
 with use_razor2 off

---
 oa/plugins/razor2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/plugins/razor2.py b/oa/plugins/razor2.py
index 8c4a68d..5b7ab23 100644
--- a/oa/plugins/razor2.py
+++ b/oa/plugins/razor2.py
@@ -78,6 +78,9 @@ class Razor2Plugin(oa.plugins.base.BasePlugin):
         return not proc.returncode
 
     def launch_subprocess(self, msg, name):
+        if not self["use_razor2"]:
+            return
+
         if not self["razor_config"]:
             args = [name]
         else:
-- 
2.43.0


From ccd945e91d8b308e1014dd2aefb9af62027e9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:45 +0000
Subject: [PATCH 47/47] fix: a pyzor server that fails hid the answers of, and
 the reports to, the servers after it

---
 oa/plugins/pyzor.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/oa/plugins/pyzor.py b/oa/plugins/pyzor.py
index 015f778..86f876e 100644
--- a/oa/plugins/pyzor.py
+++ b/oa/plugins/pyzor.py
@@ -2,6 +2,7 @@
 
 from __future__ import absolute_import
 
+import pyzor
 import pyzor.client
 import pyzor.digest
 
@@ -42,9 +43,14 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         client = self["client"]
         self.ctxt.log.debug("Checking digest %s with Pyzor", digest)
         for server in self["pyzor_servers"]:
-            response = client.check(digest, server.rsplit(":", 1))
-            r_count = int(response["Count"])
-            wl_count = int(response["WL-Count"])
+            try:
+                response = client.check(digest, server.rsplit(":", 1))
+                r_count = int(response["Count"])
+                wl_count = int(response["WL-Count"])
+            except (pyzor.CommError, TypeError, ValueError) as e:
+                # The other servers may know the digest.
+                self.ctxt.log.warn("No response from %s: %s", server, e)
+                continue
             self.ctxt.log.debug("Response from %s: (%s, %s)", server, r_count,
                                 wl_count)
             msg.plugin_tags["PYZOR_COUNT"] = r_count
@@ -76,7 +82,11 @@ class PyzorPlugin(oa.plugins.base.BasePlugin):
         self.ctxt.log.debug("Reporting digest %s with Pyzor (%s)", digest,
                             spam)
         for server in self["pyzor_servers"]:
-            if spam:
-                client.report(digest, server.rsplit(":", 1))
-            else:
-                client.whitelist(digest, server.rsplit(":", 1))
+            try:
+                if spam:
+                    client.report(digest, server.rsplit(":", 1))
+                else:
+                    client.whitelist(digest, server.rsplit(":", 1))
+            except pyzor.CommError as e:
+                # The report still goes to the other servers.
+                self.ctxt.log.warn("Unable to report to %s: %s", server, e)
-- 
2.43.0

