"""Writes properties.jsonl (kept as code so that the text is easy to review)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "asyncapi3/models/"
V = "asyncapi3/validators/"
B = M + "bindings/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None},
    })


ALLM = [M + f for f in ("asyncapi.py", "info.py", "server.py", "channel.py", "operation.py", "message.py", "schema.py", "security.py", "components.py", "base.py", "base_models.py")]

prop("P01", "Every conforming document is accepted and readable under Python names",
     "Every document that follows the AsyncAPI 3.0 object model (its objects, fields, value types, bounds and map names, all 19 protocol bindings included) is accepted by the root model, and each of the 148 object models accepts every conforming value of its object. In the result each field is readable under its snake_case name with exactly the value given, as the documented object, reference or scalar; absent optional fields read as None or as the documented default.",
     ["inputs"], "all documents and all single objects generated from the object model, at any combination of present and absent fields, falsy values, boundary values, unusual names and strings, and reference/inline choices",
     "the tests parse a few hundred fixed documents, nearly always with ordinary names, truthy values and one nesting context per object",
     ALLM + [B], [("model fields, aliases, unions and constraints", M), ("before/after validators", M)], ["model_validate result", "public attributes"])
prop("P02", "Structurally invalid documents are rejected with a validation error",
     "A document that breaks the object model anywhere (unknown field in an object, missing required field, value of the wrong type beyond the lax scalar conversions of pydantic, value outside an enumeration or numeric or length bound) is rejected by parsing, at whatever depth the fault sits. The rejection is always the library's validation error, never a silently altered or partially accepted document and never another exception.",
     ["inputs"], "all single and double faults injected at every modelled position of every conforming document",
     "each test injects one fault at one shallow position of one fixed document; positions behind unions, maps and lists are mostly untested",
     ALLM + [B], [("extra=forbid / extension check", M + "base_models.py"), ("field constraints", M)], ["model_validate outcome"])
prop("P03", "Parsing and dumping a document loses and invents nothing",
     "For every conforming document, parsing it and dumping it (as a dict or as JSON) gives back the same document: every field, extension, map entry, list order, reference string, falsy value and unusual string is preserved, and the only additions are documented defaults. Parsing the dump again gives an equal model, and models differing anywhere are not equal.",
     ["inputs"], "all conforming documents (without explicit nulls for optional fields), dumped in Python mode, JSON mode and as JSON text",
     "tests round-trip a handful of complete examples and never compare falsy values, extension payloads or map order",
     ALLM + [B], [("serialize_by_alias", M + "base_models.py"), ("exclude_if", M + "helpers.py")], ["model_dump", "model_dump_json", "=="])
prop("P04", "Serialised documents use AsyncAPI field names and carry no null clutter",
     "Every dump, of the root or of any object, names fields exactly as the AsyncAPI specification does and omits every unset optional field, the only null it may introduce being a channel's address. Documented defaults such as the specification version and binding versions are present, processor lists never appear, and dumping is a fixed point of parse-then-dump. This holds however the object was built: parsed, constructed by Python names, or assigned afterwards.",
     ["inputs", "histories"], "all objects of all 148 models, built by parsing, by keyword construction, or by assigning fields one at a time, including assigning None",
     "tests check serialised form for one or two instances per model, and never that nothing else appears",
     ALLM + [B], [("exclude_if=is_null", M + "helpers.py"), ("aliases", M)], ["model_dump keys"])
prop("P05", "All ways of building a document agree",
     "The same document given as a Python dict, JSON text or bytes, YAML text or bytes, keyword arguments under specification names, keyword arguments under Python names, or assembled from already built model objects yields equal models with the same serialisation, and if one way rejects it, every way rejects it with the validation error.",
     ["inputs"], "all conforming and faulty documents, through every entry point",
     "tests use one entry point per document; the entry points are never compared on the same input",
     [M + "asyncapi.py", M + "base_models.py"], [("validate_by_name and validate_by_alias", M + "base_models.py"), ("model_validate_yaml", M + "asyncapi.py")], ["model_validate", "model_validate_json", "model_validate_yaml", "constructors"])
prop("P06", "An object holding only $ref is a reference, anything else is not",
     "Wherever the specification allows a reference, an object whose only member is a string $ref is read as a reference with exactly that string and is written back as exactly that object, and an object without $ref is read as the inline object, never as a reference. A closed or extendable object position never accepts $ref with sibling members, and a position that allows only references never accepts an inline object.",
     ["inputs"], "all reference positions of the object model and all reference strings",
     "tests show references at some positions with ordinary pointers; strings such as empty, unicode or bare fragments and most positions are never tried",
     [M + "base.py"] + ALLM, [("Reference model", M + "base.py"), ("X | Reference unions", M)], ["types of attributes", "model_dump"])
prop("P07", "Specification extensions survive; other unknown fields are refused",
     "In every object that allows specification extensions, a field whose name is x- followed by one or more letters, digits, dots, hyphens or underscores is accepted with any JSON value and serialised unchanged, including null, and any other unknown name is rejected. Objects that do not allow extensions reject every unknown field, extensions included. The same decision is made when parsing, constructing and assigning attributes.",
     ["inputs", "histories"], "all object models, all extension names near the pattern, all JSON values, by parsing, construction and assignment",
     "tests check one good and one bad name on some models, and never near misses such as trailing newlines",
     [M + "base_models.py"] + ALLM, [("extension name check", M + "base_models.py")], ["model_validate outcome", "model_extra", "model_dump"])
prop("P08", "Named maps accept exactly the specified key names",
     "Every named map of the specification (root servers, channels and operations, channel messages and parameters, and every components section, server variables included) accepts exactly the keys made of one or more ASCII letters, digits, underscores and hyphens, keeps their order, and rejects all other keys with a validation error. This holds at any nesting and however entries arrive: parsing, construction or item assignment.",
     ["inputs", "histories"], "all keys over a hostile alphabet, at every map of the object model, with any number of entries",
     "tests try a few good and bad keys on some of the maps and never several entries, newline or non-ASCII keys in each",
     [M + "base_models.py", M + "helpers.py", M + "components.py"], [("key validation", M + "base_models.py"), ("key validation helper", M + "helpers.py")], ["model_validate outcome", "map iteration"])
prop("P09", "Scalar formats are enforced over the whole string",
     "The specification version must be 3.minor.patch with an optional hyphenated suffix, contact e-mail addresses must be well formed, URL fields must be absolute URLs (with an http or https scheme where documented), and a correlation identifier location must start with $message followed by a dot. Strings satisfying the rule are accepted and kept (URLs in normalised form), all others are rejected with a validation error, including near misses such as leading or trailing whitespace and newlines.",
     ["inputs"], "all strings near the grammars, at every field with a format",
     "tests list a few good and bad strings; anchoring and character-class mistakes only show on strings nobody wrote down",
     [M + "asyncapi.py", M + "info.py", M + "security.py", M + "helpers.py", M + "base.py"], [("version validator", M + "asyncapi.py"), ("e-mail validator", M + "info.py"), ("URL types", M)], ["model_validate outcome"])
prop("P10", "Security schemes are accepted exactly when their type's rules hold",
     "A security scheme is accepted exactly when the members its type requires are present and valid (key location, header name, HTTP scheme, OAuth flows, OpenID Connect URL), the bearer format is given only for the HTTP bearer scheme and scopes only for OAuth2 or OpenID Connect. OAuth flow objects are accepted exactly when each present flow carries the URLs its kind requires. The decision depends only on the members present, and is the same for parsing, construction and assignment.",
     ["inputs", "histories"], "all combinations of the 13 scheme types with present, absent and null members, all combinations of flows and URLs, and all orders of assignment",
     "tests cover one accept and one reject per type; cross combinations of unrelated members are never tried",
     [M + "security.py"], [("per-type validators", M + "security.py"), ("flow validators", M + "security.py")], ["model_validate outcome"])
prop("P11", "Channel parameters, message examples and operations obey their rules",
     "A channel with parameters is accepted exactly when its address contains a parameter expression, a message example exactly when it has headers or a payload (falsy payloads count), and an operation exactly when its action is send or receive and its channel is a reference. A parameter's enumeration, default, location and examples and a server's required host and protocol are kept as given.",
     ["inputs", "histories"], "all presence, null and falsy combinations of the members involved, by parsing, construction and assignment",
     "tests use a single example per rule; falsy payloads, null addresses and assignment orders are not covered",
     [M + "channel.py", M + "message.py", M + "operation.py", M + "server.py"], [("cross-field validators", M + "channel.py"), ("cross-field validators", M + "message.py")], ["model_validate outcome"])
prop("P12", "Protocol bindings enforce their documented bounds and pairings",
     "For each of the 19 protocols and each of the server, channel, operation and message bindings, exactly the documented members are accepted, numeric and length limits hold inclusively at both ends, enumerations accept only the listed values, and paired members (queue or exchange, queue or topic, vendor with URL, header restrictions by message type) are accepted in exactly the documented combinations. Protocols without a definition accept only an empty object, and defaults are the documented ones.",
     ["inputs"], "all binding objects at the boundaries of every limit, all enumeration neighbours and all presence combinations of paired members",
     "tests check some limits on one side and a few combinations; most boundaries, falsy values and combinations are not tried",
     [B + f for f in ("amqp.py", "amqp1.py", "anypointmq.py", "core.py", "googlepubsub.py", "http.py", "ibmmq.py", "jms.py", "kafka.py", "mercure.py", "mqtt.py", "mqtt5.py", "nats.py", "pulsar.py", "redis.py", "sns.py", "solace.py", "sqs.py", "stomp.py", "websockets.py")],
     [("field bounds and model validators", B), ("ProtocolBindings containers", B + "core.py")], ["model_validate outcome", "defaults"])
prop("P13", "Attribute assignment is all or nothing",
     "Assigning a field of any model either succeeds, leaving the model equal to one freshly built from the resulting values, or raises the validation error and leaves the model exactly as it was: same attribute values, same serialisation, same set of given fields, same equality. This holds for every sequence of assignments, including those only cross-field rules reject and those a document's validators reject.",
     ["histories"], "all sequences of valid and invalid assignments on every model, including root documents with validators attached",
     "tests assign once per model with a plainly wrong type; rejections that come after the value is stored and long mixed sequences are not covered",
     [M + "base_models.py", M + "asyncapi.py"], [("assignment rollback", M + "base_models.py"), ("validate_assignment", M + "base_models.py")], ["attributes", "model_dump", "==", "model_fields_set"])
prop("P14", "Named maps behave as validated ordered dictionaries",
     "A named map supports item lookup, item assignment, deletion, membership, length and iteration with the semantics of an ordered dictionary: after any sequence of operations its contents, order and serialisation equal those of a plain dictionary that underwent the same successful operations. An assignment with an invalid key or value raises the validation error and changes nothing, and missing keys raise KeyError.",
     ["histories"], "all sequences of map operations with valid and invalid keys and values on each of the named maps",
     "tests exercise each operator once; sequences, rejected operations and their effect on order are not covered",
     [M + "base_models.py"], [("mapping protocol", M + "base_models.py")], ["map operations", "model_dump"])
prop("P15", "Embedding an object re-checks it",
     "When a model object is placed into another object (by construction, assignment or map item assignment), its current contents are validated again, so an object whose contents were made invalid by changing its lists or dictionaries in place or by bypassing validation is rejected with the validation error. No accepted document ever contains a part that would not be accepted if parsed.",
     ["histories"], "all embeddable models and positions, with every way of corrupting an instance behind the validator's back",
     "no test embeds a corrupted instance anywhere but in one position",
     [M + "base_models.py"], [("revalidate_instances", M + "base_models.py")], ["constructor outcome"])
prop("P16", "Models share no state with each other or with their input",
     "Parsing never modifies the input data, two models built from equal (separate) inputs never influence each other, not even through in-place edits, models built from the very same input never influence each other through assignments or map operations, and defaults are fresh for each instance. Deep copies and pickled copies are equal to and independent of the original.",
     ["histories"], "all documents and all in-place or assignment changes to one of the models or to the input afterwards",
     "tests build one model at a time and never change one to look at another",
     [M + "base_models.py", M + "asyncapi.py", V + "unified_references_validator.py"], [("default factories", M)], ["model_dump before and after"])
prop("P17", "Reference factories point where their name says",
     "Each reference factory returns, for every key, a reference to exactly that key in the section of the document it is named after, and that reference resolves to the object stored there and passes reference validation in the positions for that kind of object. Factories of different kinds never produce the same pointer for a key, nor does one factory for different keys.",
     ["inputs"], "all 22 factories and all legal keys, in documents holding an object under that key in every section",
     "tests call the factories with one or two ordinary names and compare strings; they do not resolve the result",
     [M + "base.py"], [("factory class methods", M + "base.py")], ["reference string", "resolution"])
prop("P18", "Reference resolution finds exactly the target or fails with ValueError",
     "Resolving an internal pointer returns the object the document holds at that place, its type and the place where it was found, following chains of references of any length to the first non-reference. Dangling, circular and malformed pointers raise ValueError, http and https references give no result and one warning, and resolution terminates, leaves the document unchanged and never fails in any other way.",
     ["inputs"], "all reference graphs (chains from one to thousands of links, cycles, self references, diamonds, dangling ends, external ends) over all sections, and all pointer strings",
     "tests resolve chains of at most three links over two sections",
     [V + "utils.py"], [("pointer walk and cycle detection", V + "utils.py")], ["resolve_reference result", "log records"])
prop("P19", "The unified validator rejects every bad reference",
     "A document with the unified reference validator attached is rejected whenever any of its references, at any position that may hold one, is dangling, circular, of an unsupported form or leads to an object of another kind than the position requires. This does not depend on how many other valid references exist, which strings they share, their order, or what names the user chose.",
     ["inputs", "histories"], "all reference positions of the object model, all fault kinds, in otherwise consistent documents with hostile names and shared reference strings",
     "tests cover a sample of positions with a single reference in the document",
     [V + "unified_references_validator.py", V + "utils.py"], [("expected type by path", V + "unified_references_validator.py"), ("traversal", V + "unified_references_validator.py")], ["validation outcome"])
prop("P20", "The unified validator accepts every consistent document",
     "A document in which every reference leads, directly or through other references, to an existing object of the kind its position requires is accepted by the unified reference validator and left unchanged, whatever legal names the user chose for map entries and however references are shared or chained.",
     ["inputs"], "all reference positions, all legal names (including names equal to field names of the specification), chains and sharing",
     "tests use ordinary names; a name equal to a field name can divert path matching and no test tries it",
     [V + "unified_references_validator.py", V + "utils.py"], [("expected type by path", V + "unified_references_validator.py")], ["validation outcome", "model_dump"])
prop("P21", "The tag validator checks every documented tag reference",
     "With the tag reference validator attached, a document is rejected exactly when some tag reference at a documented location (info, servers, channels, operations, messages, their traits, and the components sections) starts with # but is not a pointer to an existing entry of the components tags section. References not starting with # only produce a warning each, and nothing else in the document influences the outcome.",
     ["inputs"], "all documented locations, all pointer strings near the accepted form, single and multiple faults among valid references",
     "tests try each location with one dangling reference",
     [V + "tags_ref_validator.py"], [("location walks", V + "tags_ref_validator.py")], ["validation outcome", "log records"])
prop("P22", "The external documentation validator checks every documented reference",
     "With the external documentation reference validator attached, a document is rejected exactly when some external documentation reference at a documented location starts with # but is not a pointer to an existing entry of the components external documentation section. References not starting with # only produce a warning each, and nothing else in the document influences the outcome.",
     ["inputs"], "all documented locations, all pointer strings near the accepted form, single and multiple faults among valid references",
     "tests try each location with one dangling reference",
     [V + "external_docs_ref_validator.py", "docs/extra_validators/references.md"], [("location walks", V + "external_docs_ref_validator.py")], ["validation outcome", "log records"])
prop("P23", "External references warn and never fail",
     "A reference to another document by http or https URL, at any reference position, never makes a document invalid under any of the bundled reference validators, and each one produces a warning that quotes it. Internal references that are valid produce no warning.",
     ["inputs"], "all reference positions, mixes of external and internal references, chains ending externally",
     "tests log one external reference at a few positions",
     [V + "utils.py", V + "tags_ref_validator.py", V + "external_docs_ref_validator.py"], [("external reference detection", V + "utils.py")], ["log records", "validation outcome"])
prop("P24", "Extra processors run in order, once per validation, and can veto",
     "On every successful structural validation of a document (parsing, construction or assignment) each configured converter and then each configured validator runs exactly once, in list order, on a fresh processor instance that receives the document itself and sees its new values and all earlier converters' effects. A ValueError from any processor stops the later ones and surfaces as the validation error; changes a converter makes to the document are kept, may themselves be assignments, and never restart the run. Processors never run on structurally invalid data and never appear in dumps or in the schema. A bundled validator called by hand hands back the very document it was given, unchanged.",
     ["histories", "configurations", "fault_sequences"], "all lists of converters and validators of any length, all positions of a failing processor, all sequences of validations and assignments, with and without faults",
     "tests use at most two processors, check no order across assignments and never inject a failure in the middle",
     [M + "asyncapi.py", "asyncapi3/protocols.py"], [("processor pipeline", M + "asyncapi.py")], ["processor call log", "model_dump"],
     [("processing flag", "a run is under way on this document", M + "asyncapi.py")])
prop("P25", "Tag and documentation validators can be customised by overriding",
     "A subclass of the tag or external documentation validator that overrides the handling of internal or of external references is handed every reference of that kind at a documented location, exactly those, with the document, and its decision replaces the built-in one without changing how the other kind is handled.",
     ["programs", "inputs"], "all subclasses overriding either or both handlers, on all documents",
     "tests override one handler on one document",
     [V + "tags_ref_validator.py", V + "external_docs_ref_validator.py"], [("overridable handlers", V + "tags_ref_validator.py"), ("overridable handlers", V + "external_docs_ref_validator.py")], ["handler call log"])
prop("P26", "Validation has no memory: same document, same outcome, in any thread",
     "The outcome of validating a document (acceptance, error, warnings, resulting model) depends on that document alone: not on documents validated before, accepted or rejected, not on how often it is validated, and not on validations running at the same time in other threads. Validators do not modify the document, and validating the same document again and again keeps nothing alive.",
     ["histories", "schedules"], "all interleavings of validations of different documents in one and in many threads, with repetitions and failures in between",
     "tests validate each document once in a fresh state and in a single thread",
     [V + "unified_references_validator.py", V + "utils.py", V + "tags_ref_validator.py", V + "external_docs_ref_validator.py", M + "asyncapi.py"], [("per-call state", V)], ["outcome log per document"])
prop("P27", "The builder yields a complete empty document honouring its arguments",
     "The builder returns a valid document whose info carries exactly the given metadata, in which servers, channels, operations and every components section are present and empty, with the reference validator attached so that later broken assignments are rejected. Keyword arguments override any of these defaults, and separate builds share nothing.",
     ["inputs", "histories"], "all combinations of builder arguments and all edits made to one builder result before and after another build",
     "tests build with a few argument combinations",
     [M + "asyncapi.py"], [("as_builder", M + "asyncapi.py")], ["builder result"])
prop("P28", "References compare and hash by their string",
     "Two references are equal exactly when their reference strings are equal, equal references have equal hashes however they were built, and so sets and dictionaries of references keep exactly one entry per distinct string. A reference never equals an object of another kind.",
     ["inputs"], "all pairs of references over near-identical strings, built by parsing, keyword, alias, factory, copying and assignment",
     "tests compare two or three references",
     [M + "base.py"], [("hash", M + "base.py"), ("model equality", M + "base.py")], ["==", "hash", "set/dict membership"])
prop("P29", "The generated JSON Schema agrees with the parser",
     "The JSON Schema generated for the root and for every object model is self-contained, accepts every conforming document and everything the library serialises, and rejects documents with a wrong type, missing required field, value outside an enumeration, or unknown field of a closed object. Processor lists never appear in it, its property names and required lists are the specification's, and the defaults it states are those the parser fills in. Generating it has no effect on anything else.",
     ["inputs", "programs"], "the schemas of all models, against all conforming documents, their dumps and structural faults expressible in JSON Schema",
     "tests do not validate any document against the generated schema",
     ALLM + [B], [("schema generation", M), ("SkipJsonSchema", M + "asyncapi.py")], ["model_json_schema"])
prop("P30", "Hostile input yields a model or a validation error, nothing else",
     "Whatever is given to the parsing entry points (arbitrary JSON values, arbitrarily mutated documents, values nested up to 200 levels deep, non-string keys, huge numbers, wrong Python types, malformed JSON text), with or without the bundled reference validators attached, the result is a model or the validation error, in time proportionate to the input. A model obtained from JSON data (finite numbers, well-formed text) can always be dumped, and its dump parsed again to an equal model.",
     ["inputs"], "all JSON values and Python objects as input, mutated from conforming documents or arbitrary",
     "tests only supply inputs of the expected shape with one wrong value",
     ALLM + [B, V], [("before validators and helpers", M + "helpers.py"), ("discriminating unions", M)], ["outcome of entry points"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps(p) + "\n")
print(len(P))
