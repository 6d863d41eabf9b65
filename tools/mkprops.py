#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here, once)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "A message's score is exactly the sum of the rules that matched",
  "When a message is checked, every enabled rule is evaluated exactly once and in the rule set's order, its outcome is recorded under its name, and the message's score grows by that rule's score if and only if it matched. A rule that fails with an internal error counts as not matched and never prevents the remaining rules, the end-of-check step and the learning step from running. A rule that asks for processing to stop ends the evaluation at once, adds nothing by itself, and the end-of-check and learning steps still run.",
  ["inputs", "programs", "fault_sequences"], "all rule sets (any number of rules, any scores), all messages, any rule raising any error at any position",
  "The tests check rule sets of one to three mocked rules; the claim is over any number of rules and any combination of match / no match / text result / failure / stop.",
  ["oa/rules/ruleset.py"], [("evaluation loop with per-rule error isolation", "oa/rules/ruleset.py RuleSet.match")],
  ["message score, recorded results and descriptions after a check"], [("message score", "sum of matched scores", "oa/message.py")])

p("C02", "Every command gives the same verdict: spam exactly at the threshold or above",
  "A message is called spam exactly when its final score is greater than or equal to the configured required score, in every command of the daemon and in the adjusted message. The reply of the check family states that verdict, the score and the threshold of the message that was just checked, and the length it announces is the exact number of bytes of the body that follows it. The 'report if spam' command sends a report body exactly for spam and an empty body otherwise, and the 'symbols' command lists exactly the rules recorded as matched, in evaluation order.",
  ["inputs", "configurations"], "all scores, thresholds, rule results and reply texts (any characters)",
  "Tests use a handful of scores and ASCII replies; equality at the threshold, non-ASCII replies and arbitrary rule sets are unreachable by samples.",
  ["oa/protocol/check.py", "oa/protocol/process.py", "oa/rules/ruleset.py"], [("verdict comparison and reply framing", "oa/protocol/check.py CheckCommand.handle"), ("report gating", "oa/protocol/check.py ReportIfSpamCommand")],
  ["bytes written to the client"])

p("C03", "A rule's effective score is the one its score list, flags and mode select",
  "A rule configured with one score always uses it; a rule configured with four scores uses the one selected by whether Bayes and network tests are enabled; any other number of scores is rejected. Without a configured score a rule is worth 1, or -1 when flagged nice; rules whose name starts with two underscores are worth 0. A rule flagged net, noautolearn, learn or userconf is worth 0 exactly when network tests are off, auto-learning is on, Bayes is off, or user configuration is off respectively.",
  ["inputs", "configurations"], "all score lists, all combinations of flags and the four mode switches, all rule names",
  "There are 2^4 modes times all flag sets and score lists; tests sample a few.",
  ["oa/rules/base.py"], [("default score", "oa/rules/base.py BaseRule.__init__"), ("mode selection", "oa/rules/base.py BaseRule.preprocess")],
  ["rule score after it was added to a rule set"])

p("C04", "Every rule is registered once, enabled iff scored, evaluated by priority",
  "Adding a rule to a rule set makes it retrievable by its name and puts it in exactly one of the enabled or disabled groups: enabled exactly when its effective score is not zero and its name does not start with two underscores. Nothing else in the rule set changes. Looking up a name returns the enabled rule if there is one, otherwise the disabled one unless only enabled rules were asked for, and fails for an unknown name; rules that turn out invalid after parsing are removed, and only those, unless the strict mode is on, in which case loading fails.",
  ["inputs", "histories"], "all sequences of added rules, all scores, names and flags, all sets of invalid rules",
  "Tests add single mocked rules and never check that other entries are untouched.",
  ["oa/rules/ruleset.py", "oa/rules/base.py"], [("registration", "oa/rules/ruleset.py RuleSet.add_rule"), ("lookup", "oa/rules/ruleset.py RuleSet.get_rule"), ("post-parse", "oa/rules/ruleset.py RuleSet.call_postparsing"), ("enabled test", "oa/rules/base.py BaseRule.should_check")],
  ["rules evaluated for a message", "rules named in a report"])

p("C05", "A short-circuiting rule that hits ends the check with its own score applied once",
  "When a short-circuited rule does not match, the check goes on as if it were an ordinary rule and nothing is changed. When it matches, its name and type are published in the message's tags, its result is recorded, its score plus the configured ham or spam bonus for its type (and no bonus for the plain type) is added exactly once, and no later rule is evaluated. Only rules named in the configuration with type on, ham or spam are affected.",
  ["inputs", "configurations"], "all rules, scores, short-circuit types, bonus scores and prior message scores",
  "Tests use one rule with fixed scores per type.",
  ["oa/plugins/short_circuit.py", "oa/rules/ruleset.py"], [("match wrapper", "oa/plugins/short_circuit.py ShortCircuitRule.__call__"), ("wrapping", "oa/plugins/short_circuit.py ShortCircuit.finish_parsing_end")],
  ["message score, tags and results"])

p("C06", "Header rules match iff some value of the right header view matches",
  "A header rule matches a message exactly when at least one value of the named header, in the requested view (decoded, raw, first address, first name, MIME part, or the combined header sets such as To and Cc), satisfies its pattern, no matter how many values there are or in which position; with no value it does not match. An existence rule matches exactly when the header is present. Header names are matched without regard to letter case, and a negated pattern is satisfied by exactly the values the plain pattern does not match.",
  ["inputs"], "all header names and lists of values, all patterns",
  "Tests check zero, one or two mocked values.",
  ["oa/rules/header.py", "oa/message.py", "oa/regex.py"], [("match loops", "oa/rules/header.py"), ("case-insensitive store", "oa/message.py _Headers"), ("negation", "oa/regex.py NotMatchPattern")],
  ["rule match results"])

p("C07", "Body, raw, full and URI rules each look at their own view of the message",
  "A body rule matches exactly when its pattern is found in the rendered text, a rawbody rule in the decoded raw text, a full rule in the pristine message, and a URI rule when it is found in at least one of the extracted URIs. An eval rule returns what the registered test returns for the configured arguments and counts as not matched when the test fails. None of them changes the message.",
  ["inputs", "fault_sequences"], "all messages, patterns, URI sets and failing tests",
  "Tests check fixed mocks for one value each.",
  ["oa/rules/body.py", "oa/rules/full.py", "oa/rules/uri.py", "oa/rules/eval_.py", "oa/regex.py"], [("match", "oa/rules/body.py"), ("match", "oa/rules/uri.py"), ("eval dispatch", "oa/rules/eval_.py EvalRule.match")],
  ["rule match results"])

p("C08", "A relay beyond the first untrusted one can never be trusted",
  "Walking the received chain from the newest hop, every hop with an address is put in exactly one of trusted/untrusted and exactly one of internal/external, in order. Once a hop is untrusted all earlier hops are untrusted and external, and once a hop is external no earlier hop is internal; a hop before the boundary is trusted only because its address is in the trusted networks, it authenticated, a message submission agent was passed, or, with no networks configured, its address is private.",
  ["inputs", "configurations"], "all chains of relays of any length, all memberships, authentication flags and network configurations",
  "Tests use chains of at most a few hops; the monotone boundary is a statement about any length, and forged lower hops are attacker-controlled.",
  ["oa/message.py"], [("trust walk", "oa/message.py Message._parse_relays")],
  ["trusted/untrusted/internal/external relay lists"], [("relay lists", "classification of hops", "oa/message.py")])

p("C09", "Network lists answer by the first configured entry that contains the address",
  "An address is accepted by a network list exactly when the first entry, in configuration order, that contains it was an accepting one; an address contained in no entry is not accepted. Loopback addresses are always trusted and internal even after the defaults are replaced by configured entries. Adding entries to one list never changes the answers of an unrelated list, nor those of another configuration loaded in the same process.",
  ["inputs", "configurations", "histories"], "all addresses, all sequences of configured networks including negated ones, several configurations in one process",
  "Tests configure one or two entries on one instance.",
  ["oa/networks.py"], [("membership", "oa/networks.py NetworkListBase.__contains__"), ("configuration", "oa/networks.py NetworkList")],
  ["trust decisions for relays"], [("network entries", "ordered list of (network, accepted)", "oa/networks.py")])

p("C10", "Configuration options are stored with their declared type or rejected",
  "Setting an integer, float, boolean, string, list, repeatable or clearing option changes exactly that option (or the options it clears) to the value parsed according to its declared type, accumulating repeatable options in order; a malformed number is reported as an error and leaves the old value. An option line is consumed by its owner and by nobody else, and an unknown option is left for others.",
  ["inputs", "histories"], "all option names, all value strings, all sequences of option lines",
  "Tests set single values on mocks and do not check that all other options are untouched.",
  ["oa/conf.py", "oa/context.py"], [("typed setters", "oa/conf.py Conf.set_*_option"), ("dispatch", "oa/conf.py Conf.parse_config"), ("storage", "oa/context.py _Context.set_plugin_data")],
  ["option values seen by rules and plugins"])

p("C11", "Configurations loaded in one process do not leak into each other",
  "Loading a configuration (a reload, or a user's own preferences) starts from the documented defaults: nothing accumulated by an earlier or later configuration in the same process, such as repeatable options or trusted networks, is visible in it, and loading it does not change the answers of one loaded before.",
  ["histories", "configurations"], "all sequences of configurations created in one process and all option lines in them",
  "Each test builds one configuration; leaks need two in one process.",
  ["oa/conf.py", "oa/networks.py", "oa/context.py", "oa/server.py"], [("option defaults", "oa/conf.py Conf.__init__"), ("clearing", "oa/conf.py Conf.set_clear_option"), ("network lists", "oa/networks.py NetworkList")],
  ["option values, network decisions of each configuration"])

p("C12", "Conditional and included configuration is applied exactly when it should be",
  "Lines between a plugin condition and its else or end take effect exactly when the plugin is loaded, and lines between else and end exactly when it is not; comments and blank lines have no effect. Includes are followed to a bounded depth and a deeper or circular include is reported as an error rather than looping. A malformed line or an invalid rule is skipped without affecting other lines unless the strict mode is on, in which case loading fails.",
  ["inputs", "programs", "configurations"], "all sequences of configuration lines, all sets of loaded plugins, all include depths",
  "Tests feed single lines to mocks.",
  ["oa/rules/parser.py"], [("line handler", "oa/rules/parser.py PADParser._handle_line"), ("plugin condition", "oa/rules/parser.py PADParser._handle_ifplugin"), ("include bound", "oa/rules/parser.py PADParser.parse_file")],
  ["rules and options after parsing"], [("skip flag", "inside an inactive block", "oa/rules/parser.py")])

p("C13", "The daemon reassembles exactly the message the client sent",
  "The message handed to the checks is exactly the text the client sent, independent of how the bytes are split into reads or chunks and of multi-byte characters at chunk borders; with an announced length exactly that many bytes at most are consumed. A non-numeric or negative length, or an option line without a colon, is answered with an error and nothing is checked; option names are case-insensitive and the last value wins.",
  ["inputs", "schedules"], "all messages, lengths, read sizes and option lines",
  "Tests use messages shorter than a chunk and ASCII text.",
  ["oa/protocol/base.py"], [("options", "oa/protocol/base.py BaseProtocol.get_options"), ("message", "oa/protocol/base.py BaseProtocol.get_message"), ("dispatch", "oa/protocol/base.py BaseProtocol.get_and_handle")],
  ["message given to the rule set", "bytes written back"])

p("C14", "TELL dispatches exactly the requested reports and revocations",
  "A tell request with a Set option reports the message once, and with a Remove option revokes it once, with the class (spam unless another class is given), and the local and remote targets exactly as listed in the option; without the option nothing is reported or revoked. The reply confirms exactly what was requested. Every loaded plugin receives the report or revocation unless an earlier one stops the chain.",
  ["inputs", "configurations"], "all combinations of options, target lists and plugins",
  "Tests check four fixed option sets on mocks.",
  ["oa/protocol/tell.py", "oa/context.py"], [("dispatch", "oa/protocol/tell.py TellCommand.handle"), ("hook fan-out", "oa/context.py GlobalContext.hook_report")],
  ["plugin report/revoke calls, reply lines"])

p("C15", "Each request is served with the right user's rules",
  "A request with no user, or when user rules are not allowed, is served with the main rule set; a request from a user with a preference file is served with a rule set built from the main configuration followed by exactly that user's file, and the same one is reused for later requests of that user and for nobody else. A user without a preference file gets the main rule set. Reloading the configuration drops every cached user rule set.",
  ["histories", "configurations"], "all sequences of requests by all users, interleaved with reloads",
  "Tests issue one request per fixture.",
  ["oa/server.py"], [("selection and cache", "oa/server.py Server.get_user_ruleset"), ("reload", "oa/server.py Server.load_config")],
  ["rule set used for a request"], [("user cache", "rule set per user", "oa/server.py")])

p("C16", "DNS restrictions cover a name and all of its subdomains, nearest entry wins",
  "A query is refused exactly when the closest configured ancestor of the queried name (the name itself first, then its parents) is a deny entry; a name with no configured ancestor is allowed. A refused query, or any query while DNS is unavailable, returns no records and never reaches the network; resolver failures are reported as no records.",
  ["inputs", "configurations", "fault_sequences"], "all names of any depth, all sets of restrictions, all resolver failures",
  "Tests check two or three names and restrictions.",
  ["oa/dns_interface.py"], [("ancestor walk", "oa/dns_interface.py DNSInterface.is_query_restricted"), ("gate", "oa/dns_interface.py DNSInterface.query")],
  ["queries sent, results returned"])

p("C17", "Address white/blacklists hit exactly when a listed pattern matches an address",
  "An address list test hits exactly when at least one of the message's addresses of the tested side matches at least one configured pattern, whatever their positions, and misses otherwise. The sender whitelist hits exactly when a sender address matches the whitelist or is confirmed by its relay; a sender whose listed relay does not match is remembered as forged, and a later confirmation of another address still wins.",
  ["inputs", "configurations"], "all lists of addresses and patterns, all outcomes of the relay confirmation",
  "Tests use one or two addresses and patterns.",
  ["oa/plugins/wlbl_eval.py"], [("address match", "oa/plugins/wlbl_eval.py WLBLEvalPlugin.check_address_in_list"), ("whitelist", "oa/plugins/wlbl_eval.py WLBLEvalPlugin.check_in_list"), ("default whitelist", "oa/plugins/wlbl_eval.py WLBLEvalPlugin.check_in_default_whitelist")],
  ["rule match results, whitelist state of the message"])

p("C18", "Auto-learning trains spam as spam, ham as ham, and nothing in between",
  "The learning score of a message is the sum of the scores of the rules that matched it, except those flagged noautolearn, userconf or learn. A message is submitted for learning as spam exactly when its learning score reaches the spam threshold and every spam safeguard (minimum header and body points, learner points, message score above required) holds, and as ham exactly when its learning score is below the ham threshold and every ham safeguard holds. In between, when a safeguard fails, or when learning on error is enabled and Bayes already agrees, nothing is learned.",
  ["inputs", "configurations"], "all rule sets, scores, flags, thresholds and Bayes verdicts",
  "Tests fix the intermediate values on mocks and never combine them.",
  ["oa/plugins/auto_learn_threshold.py"], [("points", "oa/plugins/auto_learn_threshold.py AutoLearnThreshold.prepare_learning_metadata"), ("decision", "oa/plugins/auto_learn_threshold.py AutoLearnThreshold.should_learn"), ("submission", "oa/plugins/auto_learn_threshold.py AutoLearnThreshold.auto_learn_discriminator")],
  ["learn/forget calls on the Bayes plugin"])

p("C19", "The auto-whitelist moves a score toward the sender's mean by its factor",
  "For a sender with history the message score is moved by exactly the configured factor times the difference between the sender's mean score and the score before adjustment; a sender without history (or with a zero mean) is not adjusted. In both cases exactly one message with the score before adjustment is added to the sender's history, and the history key depends only on the address, the signer and the masked originating address.",
  ["inputs", "histories"], "all scores, histories, factors and addresses",
  "Tests use fixed totals and counts.",
  ["oa/plugins/awl.py"], [("adjustment", "oa/plugins/awl.py AutoWhiteListPlugin.plugin_tags_sqlalch"), ("lookup", "oa/plugins/awl.py AutoWhiteListPlugin.check_from_in_auto_whitelist"), ("origin", "oa/plugins/awl.py AutoWhiteListPlugin._get_origin_ip")],
  ["message score, stored totals"])

p("C20", "Bayes probabilities are true probabilities and learning is idempotent",
  "Every token probability the classifier uses lies strictly between 0 and 1, the combined score of any set of token probabilities lies between 0 and 1, and without spam or ham history no verdict is given. Learning a message that was already learned with the same class changes nothing; learning it with the other class first forgets it exactly once; forgetting an unknown message changes nothing.",
  ["inputs", "histories"], "all token counts, all corpus sizes, all sequences of learn and forget",
  "Tests feed fixed counts and mocks.",
  ["oa/plugins/bayes.py"], [("combining", "oa/plugins/bayes.py"), ("token probability", "oa/plugins/bayes.py"), ("learn/forget", "oa/plugins/bayes.py")],
  ["bayes score and store operations"])

p("C21", "What one message leaves behind never changes the result for the next",
  "The outcome of relay, free-mail and similar checks for a message depends only on that message and the configuration: checking any other messages before it, in any order, does not change it.",
  ["histories"], "all sequences of messages checked with the same configuration",
  "Each test checks one message per plugin instance.",
  ["oa/plugins/relay_eval.py", "oa/plugins/free_mail.py"], [("relay state", "oa/plugins/relay_eval.py"), ("free-mail state", "oa/plugins/free_mail.py")],
  ["rule match results"])

p("C22", "Header rewriting adds and removes exactly the configured headers",
  "The returned message carries, in order, the additions and removals configured for all messages followed by those configured for its verdict, and never those configured only for the other verdict. A header is added with the configured text in which every tag is replaced by the message's own value, and a removal deletes exactly the named header. Asking for headers only returns the header block and a blank line.",
  ["inputs", "configurations"], "all header rules, verdicts, report modes and messages",
  "Tests check one rule per status on mocks.",
  ["oa/rules/ruleset.py"], [("adjust", "oa/rules/ruleset.py RuleSet.get_adjusted_message"), ("apply", "oa/rules/ruleset.py RuleSet._adjust_headers"), ("parse", "oa/rules/ruleset.py RuleSet._add_header_rule")],
  ["message returned by PROCESS/HEADERS"])

p("C23", "Hooks reach every plugin, in order, until one stops the chain",
  "Each hook calls the corresponding step of every loaded plugin exactly once, in load order, and a plugin that asks to inhibit further processing ends the chain and is reported as having handled it; otherwise the hook reports that nothing was inhibited. Data a plugin stores under a key is returned unchanged for that plugin and key until it is deleted or replaced, and other plugins' data is never affected. Unloading a plugin removes its tests, commands and data and nothing else.",
  ["inputs", "histories", "fault_sequences"], "all sets of plugins, all sequences of store operations, any plugin inhibiting",
  "Tests use one or two mocked plugins.",
  ["oa/context.py"], [("chain", "oa/context.py _callback_chain"), ("data store", "oa/context.py _Context"), ("unload", "oa/context.py GlobalContext.unload_plugin")],
  ["plugin calls, stored data"])

p("C24", "DNS blocklist rules hit exactly when a relay or sender is listed as asked",
  "A blocklist rule hits exactly when, for at least one untrusted address (or tested sender domain) of the message, the list returns an answer that satisfies the rule's sub-test, or any answer when there is none. When blocklist checks are disabled or the sub-test is invalid it misses and no query is sent. A sender is reported as unresolvable exactly when its domain has neither address nor mail-exchanger records.",
  ["inputs", "configurations"], "all lists of addresses, all answers, masks and sub-tests",
  "Tests check one address and answer.",
  ["oa/plugins/dns_eval.py", "oa/message.py"], [("lookup", "oa/plugins/dns_eval.py"), ("untrusted addresses", "oa/message.py Message.get_untrusted_ips")],
  ["rule match results, queries sent"])

p("C25", "Charset and text-ratio tests follow their documented thresholds",
  "A character set is acceptable exactly when, ignoring case and punctuation, it is one of the always accepted ones or one of the usual ones of an accepted locale. A range test on a measured ratio or count of the message hits exactly when the value lies in the configured half-open or closed range (bounds may be quoted); a ratio over an empty whole never hits, except that the text to HTML ratio is 1 when one of the two is missing.",
  ["inputs", "configurations"], "all charset names, locale lists, measured values and bounds",
  "Tests check a few names and bounds.",
  ["oa/locales.py", "oa/plugins/body_eval.py", "oa/plugins/mime_eval.py"], [("charset", "oa/locales.py charset_ok_for_locales"), ("ratios", "oa/plugins/body_eval.py"), ("ratios", "oa/plugins/mime_eval.py")],
  ["rule match results"])

p("C26", "Collaborative filters decide by their configured thresholds",
  "The digest network test hits exactly when at least one configured server reports the digest at least the configured number of times and as never whitelisted; a server that fails or answers with an error counts for nothing and hides no other server. The catalogue test hits exactly when the catalogue program says that the message is listed; the program is asked once per message, and every further evaluation for that message gives the same answer. With a test disabled nothing is queried or reported and it misses. Reports and revocations reach every configured server with the message's own digest.",
  ["inputs", "configurations", "histories"], "all server lists, answers and repeated evaluations",
  "Tests mock one server and one evaluation.",
  ["oa/plugins/pyzor.py", "oa/plugins/razor2.py"], [("threshold", "oa/plugins/pyzor.py PyzorPlugin.check_pyzor"), ("cached result", "oa/plugins/razor2.py Razor2Plugin.check_razor2")],
  ["rule match results, calls to servers"])

p("C27", "The envelope sender comes from the closest trustworthy hop",
  "The envelope sender is the one recorded by the first external hop if there is one that recorded it; without external hops it is taken from the last trusted hop (unless the trusted hops are configured to be ignored), then the first untrusted hop, and only then from the first configured sender header that carries an address. Otherwise it is empty. Sender and recipient address lists use the resent headers alone when they carry an address and otherwise every header of the fixed list, in order.",
  ["inputs", "configurations"], "all relay lists, header contents and settings",
  "Tests cover a few of the priority combinations.",
  ["oa/message.py"], [("sender", "oa/message.py Message._parse_sender"), ("addresses", "oa/message.py Message.get_from_addresses")],
  ["sender address used by rules"])

p("C28", "Meta rules compute the boolean combination of their sub-rules",
  "A meta rule matches exactly when its expression, with and, or, not and comparisons over the results of the rules it names, is true for the message, including rules that are disabled or are themselves meta rules. An expression naming an unknown rule, or nested or circular beyond the fixed depth, is rejected when the rules are loaded and never at check time.",
  ["inputs", "programs", "configurations"], "all expressions, all rule results, all nestings",
  "Tests check a few fixed expressions.",
  ["oa/rules/meta.py"], [("translation and binding", "oa/rules/meta.py MetaRule.postparsing")],
  ["rule match results, load errors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
