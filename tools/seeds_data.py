"""The planted bugs, as edits of the library; tools/seed.py turns them into seeded/."""
M = "asyncapi3/models/"
V = "asyncapi3/validators/"
B = M + "bindings/"
SEEDS = []


def seed(id, edits, demo, needs, breaks):
    SEEDS.append({"id": id, "property": id.split("-")[0].upper(), "edits": edits, "demo": demo, "needs": needs, "breaks": breaks})


ACC = '''
from pydantic import ValidationError


def accepts(f, *a, **k):
    try:
        f(*a, **k)
    except (ValidationError, ValueError):
        return False
    return True

'''
INFO = '{"title": "t", "version": "1"}'

# C01 ------------------------------------------------------------------------------------------------------------
seed("c01-unicode-letter",
     [(M + "helpers.py", 'pattern = re.compile(r"^[A-Za-z0-9_\\-]+$")', 'pattern = re.compile(r"^[\\w\\-]+$")')],
     ACC + '''
from asyncapi3.models.server import Servers
assert accepts(Servers, {"a-b_C9": {"host": "h", "protocol": "p"}})
assert not accepts(Servers, {"caf\\u00e9": {"host": "h", "protocol": "p"}})
''', "a name with a letter or digit outside ASCII", "named maps accept names with non-ASCII letters and digits")
seed("c01-first-key-only",
     [(M + "base_models.py", """        for field_name in self.root:
            validate_patterned_key(field_name, "object")
        return self""", """        previous: str | None = None
        for field_name in self.root:
            if previous is None or len(field_name) != len(previous):
                validate_patterned_key(field_name, "object")
            previous = field_name
        return self""")],
     ACC + """
from asyncapi3.models.server import Servers
s = {"host": "h", "protocol": "p"}
assert accepts(Servers, {"ab": s, "cd": s})
assert not accepts(Servers, {"a.": s})
assert not accepts(Servers, {"ab": s, "c.": s})
""", "two entries with names of the same length, the second illegal", "a name is not checked when the one before it has the same length")

# C02 ------------------------------------------------------------------------------------------------------------
seed("c02-del-missing",
     [(M + "base_models.py", "        del self.root[key]", "        self.root.pop(key, None)")],
     '''
from asyncapi3.models.server import Servers
s = Servers({"a": {"host": "h", "protocol": "p"}})
del s["a"]
try:
    del s["a"]
except KeyError:
    sys.exit(0)
raise AssertionError("deleting a missing entry raised nothing")
''', "deleting an entry that is not there (any more)", "deleting a missing entry succeeds silently instead of raising KeyError")
seed("c02-iter-sorted",
     [(M + "base_models.py", "        return iter(self.root)", "        return iter(sorted(self.root))")],
     '''
from asyncapi3.models.server import Servers
v = {"host": "h", "protocol": "p"}
s = Servers({"b": v, "a": v})
assert list(s) == ["b", "a"], list(s)
''', "entries whose insertion order differs from their alphabetical order", "iteration yields the names sorted and not in insertion order")

# C03 ------------------------------------------------------------------------------------------------------------
seed("c03-first-extension-only",
     [(M + "base_models.py", '''                    f"characters, digits, dots, hyphens, and underscores."
                )
        return self''', '''                    f"characters, digits, dots, hyphens, and underscores."
                )
            if key.startswith("x-internal"):
                break
        return self''')],
     ACC + '''
from asyncapi3.models.base import Tag
assert accepts(Tag, **{"name": "t", "x-a": 1, "x-b": 2})
assert not accepts(Tag, **{"name": "t", "x-internal": 1, "foo": 2})
''', "a legal extension whose name starts with x-internal before an illegal field", "fields after such an extension are not checked")
seed("c03-mercure-extra",
     [(B + "mercure.py", "class MercureServerBindings(NonExtendableBaseModel)", "class MercureServerBindings(ExtendableBaseModel)"),
      (B + "mercure.py", "from asyncapi3.models.base_models import NonExtendableBaseModel", "from asyncapi3.models.base_models import (\n    ExtendableBaseModel,\n    NonExtendableBaseModel,\n)")],
     ACC + '''
from asyncapi3.models.bindings import ServerBindingsObject
assert accepts(ServerBindingsObject.model_validate, {"mercure": {}})
assert not accepts(ServerBindingsObject.model_validate, {"mercure": {"x-a": 1}})
''', "an extension in one particular binding object", "an object that must stay empty accepts extensions")

# C04 ------------------------------------------------------------------------------------------------------------
seed("c04-startswith",
     [(M + "asyncapi.py", '''        major_version = int(version.split(".")[0])
        if major_version != 3:''', '''        if not version.lstrip("0").startswith("3"):''')],
     ACC + '''
from asyncapi3 import AsyncAPI3
i = {"title": "t", "version": "1"}
assert accepts(AsyncAPI3, asyncapi="3.1.0", info=i) and accepts(AsyncAPI3, asyncapi="03.1.0", info=i)
assert not accepts(AsyncAPI3, asyncapi="4.0.0", info=i)
assert not accepts(AsyncAPI3, asyncapi="33.0.0", info=i)
''', "a major version of several digits starting with 3", "versions such as 33.0.0 are accepted")
seed("c04-suffix-plus",
     [(M + "asyncapi.py", 'pattern = r"^\\d+\\.\\d+\\.\\d+(-[\\w\\.\\-]+)?$"', 'pattern = r"^\\d+\\.\\d+\\.\\d+(-[\\w\\.-_]+)?$"')],
     ACC + '''
from asyncapi3 import AsyncAPI3
i = {"title": "t", "version": "1"}
assert accepts(AsyncAPI3, asyncapi="3.1.0-rc.1_a", info=i)
assert accepts(AsyncAPI3, asyncapi="3.1.0-rc-1", info=i)
assert not accepts(AsyncAPI3, asyncapi="3.1.0-rc/1", info=i)
''', "a version suffix with a hyphen, or with one of the characters between '.' and '_'", "the character class becomes a range: hyphens refused, other punctuation accepted")

# C05 ------------------------------------------------------------------------------------------------------------
seed("c05-greedy-braces",
     [(M + "channel.py", 're.compile(r"\\{[^}]+\\}")', 're.compile(r"\\{.+\\}")')],
     ACC + '''
from asyncapi3.models.channel import Channel
assert accepts(Channel, address="a/{b}", parameters={})
assert not accepts(Channel, address="a/{}", parameters={})
assert not accepts(Channel, address="a/{}}", parameters={})
''', "an address with empty braces and another closing brace later", "addresses without an expression are accepted")
seed("c05-empty-parameters",
     [(M + "channel.py", '''        if self.parameters is None:
            return self''', '''        if not self.parameters:
            return self''')],
     ACC + '''
from asyncapi3.models.channel import Channel
assert accepts(Channel, address="a/{b}", parameters={})
assert not accepts(Channel, address="a", parameters={"b": {}})
assert not accepts(Channel, address="a", parameters={})
''', "an empty parameters map", "an empty parameters map without an expression in the address is accepted")

# C06 ------------------------------------------------------------------------------------------------------------
seed("c06-empty-scopes",
     [(M + "security.py", 'if self.scopes is not None and self.type_ not in ("oauth2", "openIdConnect"):', 'if self.scopes and self.type_ not in ("oauth2", "openIdConnect"):')],
     ACC + '''
from asyncapi3.models.security import SecurityScheme
assert not accepts(SecurityScheme, type="plain", scopes=["a"])
assert not accepts(SecurityScheme, type="plain", scopes=[])
''', "an empty list of scopes with a type that has none", "scopes are accepted with a type they do not belong to")
seed("c06-bearer-case",
     [(M + "security.py", 'self.type_ != "http" or self.scheme != "bearer"', 'self.type_ != "http" or str(self.scheme).lower() != "bearer"')],
     ACC + '''
from asyncapi3.models.security import SecurityScheme
assert accepts(SecurityScheme, type="http", scheme="bearer", bearerFormat="JWT")
assert not accepts(SecurityScheme, type="http", scheme="Bearer", bearerFormat="JWT")
''', "a scheme differing from 'bearer' in case only, with a bearer format", "bearerFormat is accepted with schemes other than exactly 'bearer'")

# C07 ------------------------------------------------------------------------------------------------------------
seed("c07-client-credentials-refresh",
     [(M + "security.py", '''            self.client_credentials is not None
            and self.client_credentials.token_url is None
        ):''', '''            self.client_credentials is not None
            and self.client_credentials.token_url is None
            and self.client_credentials.refresh_url is None
        ):''')],
     ACC + '''
from asyncapi3.models.security import OAuthFlows
s = {"availableScopes": {}}
assert not accepts(OAuthFlows, clientCredentials=s)
assert not accepts(OAuthFlows, clientCredentials={**s, "refreshUrl": "https://e.com/"})
''', "a clientCredentials flow without token URL but with a refresh URL", "the missing token URL is not noticed")
seed("c07-code-only-first",
     [(M + "security.py", '''                raise ValueError(
                    "authorizationUrl is required for authorizationCode flow"
                )
            if self.authorization_code.token_url is None:''', '''                raise ValueError(
                    "authorizationUrl is required for authorizationCode flow"
                )
            if self.authorization_code.token_url is None and self.implicit is None:''')],
     ACC + '''
from asyncapi3.models.security import OAuthFlows
s = {"availableScopes": {}, "authorizationUrl": "https://e.com/"}
assert not accepts(OAuthFlows, authorizationCode=s)
assert not accepts(OAuthFlows, authorizationCode=s, implicit=s)
''', "an authorizationCode flow without token URL beside an implicit flow", "one flow hides what is missing in another")

# C08 ------------------------------------------------------------------------------------------------------------
seed("c08-kafka-empty-vendor",
     [(B + "kafka.py", "if self.schema_registry_url is None and self.schema_registry_vendor is not None:", "if self.schema_registry_url is None and self.schema_registry_vendor:")],
     ACC + '''
from asyncapi3.models.bindings.kafka import KafkaServerBindings
assert not accepts(KafkaServerBindings, schemaRegistryVendor="v")
assert not accepts(KafkaServerBindings, schemaRegistryVendor="")
''', "an empty vendor text without URL", "an (empty) schemaRegistryVendor is accepted without schemaRegistryUrl")
seed("c08-ibmmq-jms-headers",
     [(B + "ibmmq.py", 'if self.type in ["string", "jms"] and self.headers is not None:', 'if self.type in "stringjms " and self.headers:')],
     ACC + '''
from asyncapi3.models.bindings.ibmmq import IBMMQMessageBindings
assert not accepts(IBMMQMessageBindings, type="jms", headers="a")
assert accepts(IBMMQMessageBindings, type="binary", headers="a")
assert not accepts(IBMMQMessageBindings, type="jms", headers="")
''', "empty headers with type string or jms", "headers are accepted with a type that has none")
seed("c08-solace-both",
     [(B + "solace.py", '''            if self.topic is None:
                raise ValueError("topic required for destinationType 'topic'")
            if self.queue is not None:''', '''            if self.topic is None:
                raise ValueError("topic required for destinationType 'topic'")
            if self.queue is not None and self.queue.name is not None:''')],
     ACC + '''
from asyncapi3.models.bindings.solace import SolaceDestination
assert accepts(SolaceDestination, destinationType="topic", topic={})
assert not accepts(SolaceDestination, destinationType="topic", topic={}, queue={"name": "n"})
assert not accepts(SolaceDestination, destinationType="topic", topic={}, queue={})
''', "a topic destination with a queue object that has no name", "a queue is accepted in a topic destination")

# C09 ------------------------------------------------------------------------------------------------------------
seed("c09-topic-limit",
     [(B + "ibmmq.py", "max_length=10240", "max_length=10250")],
     ACC + '''
from asyncapi3.models.bindings.ibmmq import IBMMQTopic
assert accepts(IBMMQTopic, string="a" * 10240)
assert not accepts(IBMMQTopic, string="a" * 10241)
''', "a topic string of 10241 to 10250 characters", "the documented limit is not kept")
seed("c09-object-name",
     [(B + "ibmmq.py", """        max_length=48,
        alias="objectName",
        description=(
            "Defines the name of the IBM MQ queue associated with the channel. \"""", """        max_length=49,
        alias="objectName",
        description=(
            "Defines the name of the IBM MQ queue associated with the channel. \"""")],
     ACC + """
from asyncapi3.models.bindings.ibmmq import IBMMQQueue
assert accepts(IBMMQQueue, objectName="a" * 48)
assert not accepts(IBMMQQueue, objectName="a" * 49)
""", "a queue name one character too long", "the documented limit is not kept")
seed("c09-max-msg-length",
     [(B + "ibmmq.py", """        if max_msg_length is not None and (""", """        if max_msg_length and max_msg_length % 1024 and ("""),],
     ACC + """
from asyncapi3.models.bindings.ibmmq import IBMMQChannelBindings
q = {"queue": {"objectName": "q"}, "destinationType": "queue"}
assert accepts(IBMMQChannelBindings, maxMsgLength=104857600, **q)
assert not accepts(IBMMQChannelBindings, maxMsgLength=104857601, **q)
assert not accepts(IBMMQChannelBindings, maxMsgLength=104858624, **q)
""", "a length over the limit that is a multiple of 1024", "such lengths are accepted")
seed("c09-solace-priority",
     [(B + "solace.py", "if isinstance(priority, int) and (priority < 0 or priority > 255):", "if isinstance(priority, int) and (priority < 0 or priority % 256 != priority and priority < 2**16):")],
     ACC + '''
from asyncapi3.models.bindings.solace import SolaceOperationBindings
assert accepts(SolaceOperationBindings, priority=255)
assert not accepts(SolaceOperationBindings, priority=256)
assert not accepts(SolaceOperationBindings, priority=70000)
''', "a priority of 65536 or more", "very large priorities are accepted")

# C10 ------------------------------------------------------------------------------------------------------------
seed("c10-falsy-payload",
     [(M + "message.py", "if self.headers is None and self.payload is None:", "if self.headers is None and (self.payload is None or self.payload == []):")],
     ACC + '''
from asyncapi3.models.message import MessageExample
assert accepts(MessageExample, payload=0) and accepts(MessageExample, payload="") and not accepts(MessageExample, payload=None)
assert accepts(MessageExample, payload=[])
''', "an example whose payload is an empty list", "an example with an empty list as payload is refused")
seed("c10-location-strip",
     [(M + "security.py", 'if not location.startswith("$message."):', 'if not location.lstrip().startswith("$message."):')],
     ACC + '''
from asyncapi3.models.security import CorrelationID
assert accepts(CorrelationID, location="$message.header#/a") and not accepts(CorrelationID, location="message.")
assert not accepts(CorrelationID, location=" $message.header#/a")
''', "a location with leading white space", "locations that do not start with $message. are accepted")

# C11 ------------------------------------------------------------------------------------------------------------
seed("c11-tld-limit",
     [(M + "helpers.py", "\\.[a-zA-Z]{2,}$", "\\.[a-zA-Z]{2,18}$")],
     ACC + '''
from asyncapi3.models.info import Contact
assert accepts(Contact, email="a@b.co")
assert accepts(Contact, email="a@b." + "c" * 24)
''', "a last label of more than 18 letters", "well-formed addresses with a long top-level domain are refused")
seed("c11-dots-local-only",
     [(M + "helpers.py", "(?!.*\\.\\.)[a-zA-Z0-9._%+-]+@", "(?!.*\\.\\..*@)[a-zA-Z0-9._%+-]+@")],
     ACC + '''
from asyncapi3.models.info import Contact
assert not accepts(Contact, email="a..b@c.de")
assert not accepts(Contact, email="a@b...de")
assert not accepts(Contact, email="a@b..de")
''', "two consecutive dots after the @", "consecutive dots in the domain are accepted")

# C12 ------------------------------------------------------------------------------------------------------------
seed("c12-rho-loop",
     [(V + "utils.py", '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    visited_refs.add(ref)
    return visited_refs''', '''    if ref in visited_refs:
        raise ValueError(f"Circular reference detected: {ref}")
    if not visited_refs:
        visited_refs.add(ref)
    return visited_refs''')],
     '''
import signal

signal.alarm(30)
from asyncapi3 import AsyncAPI3
from asyncapi3.validators.utils import resolve_reference


def spec(**targets):
    return AsyncAPI3(info={"title": "t", "version": "1"}, components={"tags": {k: {"$ref": "#/components/tags/" + v} for k, v in targets.items()}})


for s in (spec(a="b", b="a"), spec(a="b", b="c", c="b")):
    try:
        resolve_reference("#/components/tags/a", s)
    except ValueError:
        continue
    raise AssertionError("no error")
''', "a chain of references that enters a cycle without its first reference being on it", "the cycle is not detected: resolution never ends")
seed("c12-percent",
     [(V + "utils.py", """    path_parts = ref[1:].strip("/").split("/")""", """    path_parts = unquote(ref[1:]).strip("/").split("/")"""),
      (V + "utils.py", """from typing import TYPE_CHECKING, Any, NamedTuple
""", """from typing import TYPE_CHECKING, Any, NamedTuple
from urllib.parse import unquote
""")],
     """
from asyncapi3 import AsyncAPI3
from asyncapi3.validators.utils import resolve_reference
s = AsyncAPI3(info={"title": "t", "version": "1"}, components={"tags": {"a": {"name": "n"}}})
assert resolve_reference("#/components/tags/a", s).resolved_object is s.components.tags["a"]
try:
    resolve_reference("#/components/tags/%61", s)
except ValueError:
    sys.exit(0)
raise AssertionError("a path that does not exist was resolved")
""", "a percent sign and two hexadecimal digits in a reference", "references to names that do not exist resolve to other entries")
seed("c12-index-fallback",
     [(V + "utils.py", """    if part not in current_obj.root:
        raise ValueError(f"Reference key '{part}' not found in {full_path}")
    next_obj = current_obj.root[part]
    return next_obj, type(next_obj)""", """    next_obj = current_obj.root.get(part)
    if next_obj is None:
        if len(current_obj.root) != 1 or part != "*":
            raise ValueError(f"Reference key '{part}' not found in {full_path}")
        next_obj = next(iter(current_obj.root.values()))
    return next_obj, type(next_obj)""")],
     """
from asyncapi3 import AsyncAPI3
from asyncapi3.validators.utils import resolve_reference
s = AsyncAPI3(info={"title": "t", "version": "1"}, components={"tags": {"a": {"name": "n"}}})
assert resolve_reference("#/components/tags/a", s).resolved_object is s.components.tags["a"]
try:
    resolve_reference("#/components/tags/*", s)
except ValueError:
    sys.exit(0)
raise AssertionError("a path that does not exist was resolved")
""", "the segment '*' on a map with exactly one entry", "a missing entry resolves")

# C13 ------------------------------------------------------------------------------------------------------------
seed("c13-type-by-name",
     [(V + "unified_references_validator.py", """            return actual_type == expected_type or issubclass(
                actual_type, expected_type
            )""", """            return actual_type.__name__.endswith(expected_type.__name__)""")],
     ACC + """
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import UnifiedReferencesValidator as U
m = {"schemaFormat": "application/vnd.apache.avro;version=1.9.0", "schema": {"type": "string"}}
d = {"info": {"title": "t", "version": "1"}, "components": {"schemas": {"s": {"type": "string"}}, "operationBindings": {"a": {"kafka": {"groupId": {"$ref": "#/components/schemas/s"}}}}}, "extra_validators": [U]}
assert accepts(AsyncAPI3.model_validate, d)
d["components"]["schemas"]["s"] = m
assert not accepts(AsyncAPI3.model_validate, d)
""", "a reference to a multi-format schema where only a schema may stand", "objects of another kind whose class name ends alike are accepted")
seed("c13-x-names",
     [(V + "unified_references_validator.py", """        for key, value in mapping.items():
            escaped_key""", """        for key, value in mapping.items():
            if str(key).startswith("x-"):
                continue
            escaped_key"""), (V + "unified_references_validator.py", '"""Validate references inside a mapping."""', '"""Validate references inside a mapping, except in extensions."""')],
     ACC + """
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import UnifiedReferencesValidator as U
bad = {"$ref": "#/components/tags/none"}
d = {"info": {"title": "t", "version": "1"}, "components": {"tags": {"a": bad}}, "extra_validators": [U]}
assert not accepts(AsyncAPI3.model_validate, d)
d["components"]["tags"] = {"x-a": bad}
assert not accepts(AsyncAPI3.model_validate, d)
""", "an entry of a named map whose name starts with x-", "references in such entries are not checked")
seed("c13-traits-of-root",
     [(V + "unified_references_validator.py", """        for i, item in enumerate(items):
            self""", """        for i, item in enumerate(items[:8]):
            self""")],
     ACC + """
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import UnifiedReferencesValidator as U
good = {"$ref": "#/components/tags/a"}
bad = {"$ref": "#/components/tags/none"}
d = {"info": {"title": "t", "version": "1", "tags": [good] * 7 + [bad]}, "components": {"tags": {"a": {"name": "n"}}}, "extra_validators": [U]}
assert not accepts(AsyncAPI3.model_validate, d)
d["info"]["tags"].insert(0, good)
assert not accepts(AsyncAPI3.model_validate, d)
""", "a broken reference at the ninth or a later place of a list", "references far back in lists are not checked")

# C14 ------------------------------------------------------------------------------------------------------------
seed("c14-shadow-name",
     [(V + "tags_ref_validator.py", '''            if isinstance(message, Reference) or not message.tags:
                    continue
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in channel '{channel_name}'",''', '''            if isinstance(message, Reference) or not message.tags:
                    break
                self._validate_tags_list(
                    spec,
                    message.tags,
                    f"message '{message_name}' in channel '{channel_name}'",''')],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import TagsRefValidator as T
bad = {"tags": [{"$ref": "#/components/tags/none"}]}
d = {"info": {"title": "t", "version": "1"}, "channels": {"c": {"messages": {"m": bad}}}, "extra_validators": [T]}
assert not accepts(AsyncAPI3.model_validate, d)
d["channels"]["c"]["messages"] = {"l": {}, "m": bad}
assert not accepts(AsyncAPI3.model_validate, d)
''', "a message without tags before one with a broken tag reference", "later messages of the channel are not checked")
seed("c14-any-hash",
     [(V + "tags_ref_validator.py", '''        if ref_value.startswith("#"):
            self.validate_internal_tag_ref''', '''        if ref_value.startswith("#/"):
            self.validate_internal_tag_ref''')],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import TagsRefValidator as T
d = {"info": {"title": "t", "version": "1", "tags": [{"$ref": "#/components/tags/none"}]}, "extra_validators": [T]}
assert not accepts(AsyncAPI3.model_validate, d)
d["info"]["tags"] = [{"$ref": "#components/tags/none"}]
assert not accepts(AsyncAPI3.model_validate, d)
''', "a local reference whose '#' is not followed by '/'", "such references are taken for external ones and not checked")

# C15 ------------------------------------------------------------------------------------------------------------
seed("c15-falsy-docs",
     [(V + "external_docs_ref_validator.py", '''        for name, item in collection.items():
            if isinstance(item, Reference):
                continue
            self._validate_ref_field''', '''        for name, item in collection.items():
            if isinstance(item, Reference):
                return
            self._validate_ref_field''')],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import ExternalDocsRefValidator as T
bad = {"externalDocs": {"$ref": "#/components/externalDocs/none"}}
d = {"info": {"title": "t", "version": "1"}, "components": {"channels": {"b": bad}}, "extra_validators": [T]}
assert not accepts(AsyncAPI3.model_validate, d)
d["components"]["channels"] = {"a": {"$ref": "https://e.com/c"}, "b": bad}
assert not accepts(AsyncAPI3.model_validate, d)
''', "an entry that is a reference before an entry with a broken documentation reference", "entries after a reference are not checked")

# C16 ------------------------------------------------------------------------------------------------------------
seed("c16-deprecated-false",
     [(M + "schema.py", """    deprecated: bool | None = Field(
        default=None,
        exclude_if=is_null,""", """    deprecated: bool | None = Field(
        default=None,
        exclude_if=lambda value: not value,""")],
     """
from asyncapi3.models.schema import Schema
assert Schema(deprecated=True).model_dump() == {"deprecated": True}
assert Schema(deprecated=False).model_dump() == {"deprecated": False}
""", "one field given as false", "it is left out when writing")
seed("c16-empty-list-dropped",
     [(M + "operation.py", """    messages: list[Reference] | None = Field(
        default=None,
        exclude_if=is_null,
        description=(
            "A list of $ref pointers pointing to the supported Message Objects that "
            "can be processed by this operation as reply""", """    messages: list[Reference] | None = Field(
        default=None,
        exclude_if=lambda value: not value,
        description=(
            "A list of $ref pointers pointing to the supported Message Objects that "
            "can be processed by this operation as reply""")],
     """
from asyncapi3.models.operation import OperationReply
assert OperationReply(messages=[]).model_dump() == {"messages": []}
""", "an empty list in one field", "it is left out when writing")

# C17 ------------------------------------------------------------------------------------------------------------
seed("c17-no-assignment-check",
     [(B + "kafka.py", '''        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,''', '''        extra="allow",
        revalidate_instances="always",
        validate_assignment=False,''')],
     ACC + '''
from asyncapi3.models.bindings.kafka import KafkaTopicConfiguration
c = KafkaTopicConfiguration()
assert not accepts(setattr, c, "cleanup_policy", ["never"])
''', "assigning to a field of a Kafka topic configuration", "assignments to this kind of object are not validated")
seed("c09-zero-dropped",
     [(B + "amqp.py", "            raise ValueError(\"expiration must be greater than or equal to zero\")\n        return expiration", "            raise ValueError(\"expiration must be greater than or equal to zero\")\n        return expiration or None")],
     '''
from asyncapi3.models.bindings.amqp import AMQPOperationBindings
o = AMQPOperationBindings(expiration=5)
assert o.expiration == 5
o.expiration = 0
assert o.expiration == 0, o.expiration
''', "an expiration of 0", "the value 0 is dropped")

# C18 ------------------------------------------------------------------------------------------------------------
seed("c18-eq-name-only",
     [(M + "base.py", '''        return self.ref.__hash__()
''', '''        return self.ref.__hash__()

    def __eq__(self, other: object) -> bool:
        """References are equal when they point to the same target."""
        if not isinstance(other, Reference):
            return NotImplemented
        return self.ref.strip("/") == other.ref.strip("/")
''')],
     '''
from asyncapi3.models.base import Reference
assert Reference(ref="#/a") == Reference(ref="#/a") and Reference(ref="#/a") != Reference(ref="#/b")
assert Reference(ref="#/a") != Reference(ref="#/a/")
''', "two references that differ in a trailing slash", "references with different texts are equal (and their hashes differ)")
seed("c18-factory",
     [(M + "base.py", 'return cls(ref=f"#/components/replyAddresses/{reply_address_name}")', 'return cls(ref=f"#/components/replyAddresses/{reply_address_name.strip(\'-\')}")')],
     '''
from asyncapi3.models.base import Reference
assert Reference.to_component_reply_address_name("a-b").ref == "#/components/replyAddresses/a-b"
assert Reference.to_component_reply_address_name("-a").ref == "#/components/replyAddresses/-a"
''', "a name starting or ending with a hyphen, for one of the factories", "the reference points to another name")

# C19 ------------------------------------------------------------------------------------------------------------
seed("c19-before-validator",
     [(B + "kafka.py", """    @model_validator(mode="after")
    def validate_schema_registry_vendor_dependency(self) -> "KafkaServerBindings":""", """    @model_validator(mode="before")
    @classmethod
    def validate_schema_registry_vendor_dependency(cls, data: Any) -> Any:"""),
      (B + "kafka.py", """        if self.schema_registry_url is None and self.schema_registry_vendor is not None:
            raise ValueError("schemaRegistryVendor requires schemaRegistryUrl")
        return self""", """        if (
            isinstance(data, dict)
            and data.get("schemaRegistryUrl", data.get("schema_registry_url")) is None
            and data.get("schemaRegistryVendor") is not None
        ):
            raise ValueError("schemaRegistryVendor requires schemaRegistryUrl")
        return data""")],
     ACC + """
from asyncapi3.models.bindings.kafka import KafkaServerBindings
assert not accepts(KafkaServerBindings, schemaRegistryVendor="v")
assert not accepts(KafkaServerBindings, schema_registry_vendor="v")
""", "the vendor given by its Python name", "the dependency is only checked for document names")
seed("c03-third-spelling",
     [(M + "base.py", """        alias="externalDocs",
        description="Additional external documentation for this tag.",""", """        validation_alias=AliasChoices("externalDocs", "external-docs"),
        serialization_alias="externalDocs",
        description="Additional external documentation for this tag.","""),
      (M + "base.py", "from pydantic import AnyUrl, Field", "from pydantic import AliasChoices, AnyUrl, Field")],
     ACC + """
from asyncapi3.models.base import Tag
assert accepts(Tag.model_validate, {"name": "n", "externalDocs": {"url": "https://e.com/"}})
assert not accepts(Tag.model_validate, {"name": "n", "external-docs": {"url": "https://e.com/"}})
""", "a third spelling of one field's name", "an unknown field is accepted as another name of a field")

# C20 ------------------------------------------------------------------------------------------------------------
seed("c20-dedupe",
     [(M + "asyncapi.py", '''            for converter_cls in self.extra_converters:
                processor = converter_cls()''', '''            for converter_cls in dict.fromkeys(self.extra_converters):
                processor = converter_cls()''')],
     '''
from asyncapi3 import AsyncAPI3
runs = []


class A:
    def __call__(self, spec):
        runs.append("A")
        return spec


class B:
    def __call__(self, spec):
        runs.append("B")
        return spec


AsyncAPI3(info={"title": "t", "version": "1"}, extra_converters=[A, B, A])
assert runs == ["A", "B", "A"], runs
''', "the same converter listed twice", "it runs once only")
seed("c20-unchanged-skipped",
     [(M + "asyncapi.py", '''        if self.extra_validators:
            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)''', '''        state = self.model_dump_json()
        if self.extra_validators and state != self._validated_state:
            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)
            self._validated_state = state'''),
      (M + "asyncapi.py", '''    @classmethod
    def as_builder(''', '''    _validated_state: str | None = None

    @classmethod
    def as_builder(''')],
     ACC + '''
from asyncapi3 import AsyncAPI3


class Ok:
    def __call__(self, spec):
        return spec


class No:
    def __call__(self, spec):
        raise ValueError("no")


d = AsyncAPI3(info={"title": "t", "version": "1"}, extra_validators=[Ok])
assert not accepts(setattr, d, "extra_validators", [No])
''', "other validators assigned to a document that was validated before and is otherwise unchanged", "the new validators do not run")

# C21 ------------------------------------------------------------------------------------------------------------
seed("c21-explicit-empty",
     [(M + "asyncapi.py", '''            **kwargs,
        }
        spec = cls(**init_params)''', '''            **{key: value for key, value in kwargs.items() if value is not None},
        }
        spec = cls(**init_params)''')],
     '''
from asyncapi3 import AsyncAPI3
s = AsyncAPI3.as_builder(servers=None)
assert s.servers is None, s.servers
assert AsyncAPI3.as_builder(extra_validators=None).extra_validators is None
''', "a document field given as None to the builder", "the given value does not replace the builder's own")
seed("c21-shared-map",
     [(M + "asyncapi.py", '''        init_params = {
            "info": info,
            "servers": Servers({}),''', '''        init_params = {
            "info": info,
            "servers": kwargs.pop("servers", None) or Servers({}),''')],
     '''
from asyncapi3 import AsyncAPI3
s = AsyncAPI3.as_builder(servers=None)
assert s.servers is None, s.servers
''', "servers given as None to the builder", "an explicit null is replaced by an empty map")

# C22 ------------------------------------------------------------------------------------------------------------
seed("c22-remembered",
     [(V + "unified_references_validator.py", """        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
""", """        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)

        if (ref_path, ref_str) in self._fitting:
            return
"""),
      (V + "unified_references_validator.py", """        logger.debug("Reference '%s' validated successfully", ref_str)""", """        self._fitting.add((ref_path, ref_str))
        logger.debug("Reference '%s' validated successfully", ref_str)"""),
      (V + "unified_references_validator.py", """    references and checks them systematically.
    \"\"\"
""", """    references and checks them systematically.
    \"\"\"

    def __init__(self) -> None:
        self._fitting: set[tuple[str, str]] = set()
""")],
     ACC + """
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import UnifiedReferencesValidator as U
i = {"title": "t", "version": "1", "tags": [{"$ref": "#/components/tags/a"}]}
good = AsyncAPI3.model_validate({"info": i, "components": {"tags": {"a": {"name": "n"}}}})
bad = AsyncAPI3.model_validate({"info": i, "components": {"tags": {"b": {"name": "n"}}}})
assert accepts(U(), good) and not accepts(U(), bad)
u = U()
assert accepts(u, good)
assert not accepts(u, bad)
""", "one validator object used for two documents, or for one document before and after a change", "a reference that was right once is not checked again")
seed("c22-resolution-memo",
     [(V + "utils.py", """    current_obj: Any = spec
    resolved_type: type = type(spec)
""", """    key = (id(spec), "/".join(path_parts))
    if key in _followed:
        return _followed[key][1]

    current_obj: Any = spec
    resolved_type: type = type(spec)
"""),
      (V + "utils.py", """    return current_obj, resolved_type, full_path
""", """    if isinstance(current_obj, Reference):
        _followed[key] = (spec, (current_obj, resolved_type, full_path))
    return current_obj, resolved_type, full_path
"""),
      (V + "utils.py", '''logger = logging.getLogger(__name__)
''', '''logger = logging.getLogger(__name__)

# Chains followed so far, by document
_followed: dict[tuple[int, str], tuple[Any, Any]] = {}
''')],
     '''
from asyncapi3 import AsyncAPI3
from asyncapi3.models.base import Tag
from asyncapi3.validators.utils import resolve_reference
s = AsyncAPI3(info={"title": "t", "version": "1"}, components={"tags": {"a": {"$ref": "#/components/tags/b"}, "b": {"name": "1"}}})
assert resolve_reference("#/components/tags/a", s).resolved_object.name == "1"
s.components.tags["a"] = Tag(name="2")
assert resolve_reference("#/components/tags/a", s).resolved_object.name == "2"
''', "a chain of references resolved twice, with the target replaced in between", "the result of the first resolution is returned")

# C23 ------------------------------------------------------------------------------------------------------------
seed("c23-strip",
     [(M + "base.py", "    ref: str = Field(", "    ref: Annotated[str, StringConstraints(strip_whitespace=True)] = Field("),
      (M + "base.py", "from pydantic import AnyUrl, Field", "from typing import Annotated\n\nfrom pydantic import AnyUrl, Field, StringConstraints")],
     """
from asyncapi3.models.message import Message
m = Message.model_validate({"tags": [{"$ref": "a b "}]})
assert m.model_dump() == {"tags": [{"$ref": "a b "}]}, m.model_dump()
""", "a reference text with white space at an end", "the text is changed")
seed("c23-binding-position",
     [(B + "mqtt5.py", "session_expiry_interval: int | Schema | Reference | None", "session_expiry_interval: int | Schema | None")],
     '''
from asyncapi3.models.base import Reference
from asyncapi3.models.bindings.mqtt5 import MQTT5ServerBindings
b = MQTT5ServerBindings.model_validate({"sessionExpiryInterval": {"$ref": "#/components/schemas/a"}})
assert isinstance(b.session_expiry_interval, Reference), b
''', "a reference at one particular position in a binding", "it is not read as a reference")

# C24 ------------------------------------------------------------------------------------------------------------
seed("c24-multiformat-instances",
     [(M + "schema.py", '''        extra="allow",
        revalidate_instances="always",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    schema_format''', '''        extra="allow",
        validate_assignment=True,
        serialize_by_alias=True,
        validate_by_name=True,
        validate_by_alias=True,
    )

    schema_format''')],
     ACC + '''
from asyncapi3.models.message import Message
from asyncapi3.models.schema import MultiFormatSchema
m = MultiFormatSchema(schema_format="f", schema={"type": "string"})
assert accepts(Message, payload=m)
m.__dict__["schema_format"] = 5
assert not accepts(Message, headers=m)
''', "a multi-format schema changed behind its checks and embedded again", "broken objects are accepted")

# C25 ------------------------------------------------------------------------------------------------------------
seed("c25-effect-case",
     [(B + "sns.py", 'effect: Literal["Allow", "Deny"]', 'effect: Literal["Allow", "Deny", "allow"]')],
     ACC + '''
from asyncapi3.models.bindings.sns import SNSStatement
d = {"effect": "Allow", "principal": "*", "action": "sns:Publish"}
assert accepts(SNSStatement.model_validate, d)
assert not accepts(SNSStatement.model_validate, {**d, "effect": "deny"})
assert not accepts(SNSStatement.model_validate, {**d, "effect": "allow"})
''', "one value in another case", "an undocumented value is accepted")
seed("c25-backoff",
     [(B + "sns.py", 'Literal["arithmetic", "exponential", "geometric", "linear"] | None', 'Literal["arithmetic", "exponential", "geometrical", "linear"] | None')],
     ACC + '''
from asyncapi3.models.bindings.sns import SNSDeliveryPolicy
assert accepts(SNSDeliveryPolicy, backoffFunction="geometric")
''', "one documented value of one field", "a documented value is refused")

# C26 ------------------------------------------------------------------------------------------------------------
seed("c26-enum-any",
     [(M + "server.py", "enum: list[str] | None", "enum: list | None")],
     ACC + '''
from asyncapi3.models.server import ServerVariable
assert accepts(ServerVariable, enum=["a"])
assert not accepts(ServerVariable, enum=["a", 1])
''', "an element of another type in one particular list", "values of the wrong type are accepted")

# second batch ---------------------------------------------------------------------------------------------------
seed("c01-many-names",
     [(M + "base_models.py", """        for field_name in self.root:
            validate_patterned_key(field_name, "object")
        return self""", """        # check each distinct spelling once
        spellings = {field_name.lower(): field_name for field_name in self.root}
        for field_name in spellings.values():
            validate_patterned_key(field_name, "object")
        return self""")],
     ACC + '''
from asyncapi3.models.components import Schemas
assert not accepts(Schemas, {"\\u212a": {}})
assert accepts(Schemas, {"k": {}, "K": {}})
assert not accepts(Schemas, {"\\u212a": {}, "k": {}})
''', "two names that are the same in lower case, the first one with a non-ASCII letter (Kelvin sign)", "an illegal name is accepted beside a legal one")
seed("c02-contains-prefix",
     [(M + "base_models.py", """    def __len__(self) -> int:
        return len(self.root)""", """    def __len__(self) -> int:
        return len({name.lower() for name in self.root})""")],
     '''
from asyncapi3.models.base import Tag
from asyncapi3.models.schema import Schema
from asyncapi3.models.components import Schemas
t = Schemas({"a": {}})
assert len(t) == 1
t["A"] = {}
assert len(t) == 2
''', "names that differ only in case", "the size of a map is wrong")
seed("c02-getitem-default",
     [(M + "base_models.py", """    def __getitem__(self, item: str) -> T:
        return self.root[item]""", """    def __getitem__(self, item: str) -> T:
        if item not in self.root and item.startswith("#/"):
            item = item.rsplit("/", 1)[-1]
        return self.root[item]""")],
     '''
from asyncapi3.models.components import Schemas
t = Schemas({"a": {}})
t["a"]
try:
    t["#/components/schemas/a"]
except KeyError:
    pass
else:
    raise AssertionError("found")
''', "a lookup by a name that looks like a pointer", "a missing name is found")
seed("c03-none-valued",
     [(M + "base_models.py", """        for key in self.model_extra:
            if not extension_pattern.fullmatch(key):""", """        for key, value in self.model_extra.items():
            if value is None:
                continue
            if not extension_pattern.fullmatch(key):""")],
     ACC + '''
from asyncapi3.models.base import Tag
assert not accepts(Tag, name="t", foo=1)
assert not accepts(Tag, name="t", foo=None)
''', "an unknown field whose value is null", "unknown fields are accepted when null")
seed("c03-long-name",
     [(M + "base_models.py", """        for key in self.model_extra:
            if""", """        for key in filter(lambda name: len(name) <= 64, self.model_extra):
            if""")],
     ACC + '''
from asyncapi3.models.base import Tag
assert accepts(Tag, **{"name": "t", "x-" + "a" * 100: 1})
assert not accepts(Tag, **{"name": "t", "x-a!": 1})
assert not accepts(Tag, **{"name": "t", "x-" + "a" * 70 + "!": 1})
''', "an extension name longer than 64 characters with a bad end", "long illegal extension names are accepted")
seed("c04-major-prefix",
     [(M + "asyncapi.py", "        if major_version != 3:", "        if str(major_version)[0] != \"3\":")],
     ACC + '''
from asyncapi3 import AsyncAPI3
i = {"title": "t", "version": "1"}
assert accepts(AsyncAPI3, info=i, asyncapi="3.1.0")
assert not accepts(AsyncAPI3, info=i, asyncapi="4.0.0")
assert not accepts(AsyncAPI3, info=i, asyncapi="30.0.0")
''', "a major version with several digits starting with 3", "version 30 and the like are accepted")
seed("c04-suffix-dash",
     [(M + "asyncapi.py", """        major_version = int(version.split(".")[0])""", """        version = version.rstrip("-.")
        major_version = int(version.split(".")[0])""")],
     '''
from asyncapi3 import AsyncAPI3
s = AsyncAPI3(info={"title": "t", "version": "1"}, asyncapi="3.0.0-a")
assert s.asyncapi == "3.0.0-a"
s.asyncapi = "3.0.0-a."
assert s.asyncapi == "3.0.0-a.", s.asyncapi
''', "a suffix that ends with a dot or hyphen", "the version is changed")
seed("c05-escaped",
     [(M + "channel.py", """        if not expression_pattern.search(self.address):""", """        if not expression_pattern.search(self.address.replace("{{", "").replace("}}", "")):""")],
     ACC + '''
from asyncapi3.models.channel import Channel
assert accepts(Channel, address="a/{b}", parameters={"b": {}})
assert accepts(Channel, address="a/{{b}", parameters={"b": {}})
''', "an address with a doubled brace", "an address with an expression is refused")
seed("c05-newline",
     [(M + "channel.py", """        expression_pattern = re.compile(r"\\{[^}]+\\}")""", """        expression_pattern = re.compile(r"\\{.+?\\}")""")],
     ACC + '''
from asyncapi3.models.channel import Channel
assert accepts(Channel, address="a/{b}", parameters={"b": {}})
assert accepts(Channel, address="a/{\\n}", parameters={"b": {}})
assert not accepts(Channel, address="a/{}", parameters={"b": {}})
''', "an expression that spans a line end, or an empty one followed by a brace", "addresses with an expression are refused")
seed("c06-name-empty",
     [(M + "security.py", """            if self.name is None:
                raise ValueError("name is required for httpApiKey type")""", """            if not self.name:
                raise ValueError("name is required for httpApiKey type")""")],
     ACC + '''
from asyncapi3.models.security import SecurityScheme
assert accepts(SecurityScheme, type="httpApiKey", name="n", **{"in": "query"})
assert accepts(SecurityScheme, type="httpApiKey", name="", **{"in": "query"})
''', "a name that is the empty text", "a scheme with an empty name is refused")
seed("c07-empty-scopes-flow",
     [(M + "security.py", "        if self.password is not None and self.password.token_url is None:", "        if self.password and self.password.available_scopes and self.password.token_url is None:")],
     ACC + '''
from asyncapi3.models.security import OAuthFlows
assert not accepts(OAuthFlows, password={"availableScopes": {"a": "b"}})
assert not accepts(OAuthFlows, password={"availableScopes": {}})
''', "a password flow without scopes", "a flow without its URL is accepted")
seed("c10-empty-both",
     [(M + "message.py", """        if self.headers is None and self.payload is None:""", """        if self.headers is None and self.payload is None or self.headers == {} and self.payload in ({}, [], ""):""")],
     ACC + '''
from asyncapi3.models.message import MessageExample
assert not accepts(MessageExample, name="n")
assert accepts(MessageExample, headers={})
assert accepts(MessageExample, headers={}, payload={})
''', "both headers and payload present and empty", "an example with empty content is refused")
seed("c11-double-dot-local",
     [(M + "helpers.py", """r"^(?!.*\\.\\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\\.[a-zA-Z]{2,}$\"""", """r"^(?!.*\\.\\.)[a-zA-Z0-9._%+-]+@(?!-)[a-zA-Z0-9.-]+\\.[a-zA-Z]{2,}$\"""")],
     ACC + '''
from asyncapi3.models.info import Contact
assert accepts(Contact, email="a@b.cc")
assert accepts(Contact, email="a@-b.cc")
''', "a domain that starts with a hyphen", "a well-formed address is refused")
seed("c12-alias-shadow",
     [(V + "utils.py", """        if name == part:
            return name
        if hasattr(field_info, "alias") and field_info.alias == part:
            return name""", """        alias = getattr(field_info, "alias", None) or name
        if part in (name, alias) or alias.startswith(part + "s"):
            return name""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators.utils import resolve_reference
s = AsyncAPI3(info={"title": "t", "version": "1"}, servers={"x": {"host": "h", "protocol": "p"}})
assert resolve_reference("#/servers/x", s).resolved_object.host == "h"
assert not accepts(resolve_reference, "#/server/x", s)
''', "a pointer segment without the plural s", "a pointer to nothing resolves")
seed("c12-first-char",
     [(V + "utils.py", """    return ref.startswith(("http://", "https://"))""", """    return ref.startswith(("http:", "https:"))""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators.utils import resolve_reference
s = AsyncAPI3(info={"title": "t", "version": "1"})
assert accepts(resolve_reference, "https://a", s)
assert not accepts(resolve_reference, "https:a", s)
''', "a scheme without slashes", "other texts are taken for external references")
seed("c13-alias-chain",
     [(V + "unified_references_validator.py", """            return actual_type == expected_type or issubclass(
                actual_type, expected_type
            )""", """            return issubclass(actual_type, expected_type) or (
                actual_type.__name__.startswith(expected_type.__name__)
            )""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import UnifiedReferencesValidator as V


def d(**k):
    return AsyncAPI3(info={"title": "t", "version": "1"}, **k)


ok = d(components={"messages": {"m": {}}}, operations={"o": {"action": "send", "channel": {"$ref": "#/channels/c"}}}, channels={"c": {}})
assert accepts(V(), ok)
bad = d(components={"messageTraits": {"m": {}}, "messages": {"a": {"$ref": "#/components/messageTraits/m"}}})
assert not accepts(V(), bad)
''', "a reference to an object whose kind's name begins with the expected kind's", "references to other kinds are accepted")
seed("c14-empty-tags",
     [(V + "tags_ref_validator.py", """            if isinstance(tag, Reference):
                self.validate_tag_ref(spec, tag, f"components tag '{tag_name}'")""", """            if isinstance(tag, Reference) and not tag.ref.endswith(f"/{tag_name}"):
                self.validate_tag_ref(spec, tag, f"components tag '{tag_name}'")""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import TagsRefValidator as V


def d(ref):
    return AsyncAPI3(info={"title": "t", "version": "1"}, components={"tags": {"a": {"$ref": ref}, "b": {"name": "b"}}})


assert accepts(V(), d("#/components/tags/b"))
assert not accepts(V(), d("#/components/tags/c"))
assert not accepts(V(), d("#/components/schemas/a"))
''', "a catalogue entry whose reference ends with its own name but leads elsewhere", "a reference outside the catalogue is accepted")
seed("c15-continue-return",
     [(V + "external_docs_ref_validator.py", """        for i, tag in enumerate(spec.info.tags):
            if isinstance(tag, Reference):
                continue
            self._validate_ref_field(spec, tag, f"tag at info.tags[{i}]")""", """        for i, tag in enumerate(spec.info.tags):
            if isinstance(tag, Reference):
                return
            self._validate_ref_field(spec, tag, f"tag at info.tags[{i}]")""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import ExternalDocsRefValidator as V


def d(*tags):
    return AsyncAPI3(info={"title": "t", "version": "1", "tags": list(tags)}, components={"tags": {"a": {"name": "a"}}})


bad = {"name": "n", "externalDocs": {"$ref": "#/components/externalDocs/zz"}}
assert not accepts(V(), d(bad))
assert not accepts(V(), d({"$ref": "#/components/tags/a"}, bad))
''', "a tag reference before a tag with a bad reference", "later tags are not checked")
seed("c16-blank-text",
     [(M + "base.py", """        exclude_if=is_null,
        description=(
            "A short description for the tag. CommonMark""", """        exclude_if=lambda v: not (v or "").strip(),
        description=(
            "A short description for the tag. CommonMark""")],
     '''
from asyncapi3.models.base import Tag
assert Tag(name="n", description="d").model_dump() == {"name": "n", "description": "d"}
assert Tag(name="n", description=" ").model_dump() == {"name": "n", "description": " "}
''', "an optional text of spaces", "the text is lost when writing")
seed("c08-solace-empty-queue",
     [(B + "solace.py", """            if self.queue is None:
                raise ValueError("queue required""", """            if self.queue is None or not self.queue.model_fields_set:
                raise ValueError("queue required""")],
     ACC + '''
from asyncapi3.models.bindings.solace import SolaceDestination
assert accepts(SolaceDestination, destinationType="queue", queue={"name": "n"})
assert not accepts(SolaceDestination, destinationType="queue")
assert accepts(SolaceDestination, destinationType="queue", queue={})
''', "a queue object without fields", "a present, empty queue is refused")
seed("c13-same-object",
     [(V + "unified_references_validator.py", """        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)
""", """        ref_str = ref_obj.ref

        if ref_str not in validated_refs:
            validated_refs.add(ref_str)

        position = (ref_str, *ref_path.split(".")[-2:])
        positions = getattr(self, "_positions", set())
        if position in positions:
            return
        positions.add(position)
"""),
      (V + "unified_references_validator.py", """        validated_refs: set[str] = set()
        self""", """        validated_refs: set[str] = set()
        self._positions: set[tuple[str, ...]] = set()
        self""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import UnifiedReferencesValidator as V


def d(**k):
    return AsyncAPI3(info={"title": "t", "version": "1"}, **k)


r = {"$ref": "#/components/messages/m"}
good = d(components={"messages": {"m": {}, "a": {"$ref": "#/components/messages/m"}}})
bad = d(components={"messages": {"m": {}, "a": r}, "tags": {"a": r}})
assert accepts(V(), good)
assert not accepts(V(), d(components={"messages": {"m": {}}, "tags": {"a": r}}))
assert not accepts(V(), bad)
''', "the same reference under the same name in maps of different kinds", "the second, ill-fitting reference is not checked")

# third batch -----------------------------------------------------------------------------------------------------
seed("c17-equal-skipped",
     [(M + "schema.py", "    discriminator: str | None = Field(", """    def __setattr__(self, name: str, value: Any) -> None:
        if (self.model_extra or {}).get(name) == value and value is not None:
            return
        super().__setattr__(name, value)

    discriminator: str | None = Field(""")],
     ACC + '''
from asyncapi3.models.schema import Schema
s = Schema.model_validate({"const": 1})
s.const = True
assert s.const is True
s = Schema.model_validate({"const": "a"})
s.const = "b"
assert s.const == "b"
''', "assigning a keyword a value that equals the present one but is another (1 and true, 0 and false)", "the assignment is dropped")
seed("c17-null-extension",
     [(M + "base_models.py", """    @model_validator(mode="after")
    def validate_extensions(""", """    def __setattr__(self, name: str, value: object) -> None:
        if value is None and self.model_extra and name in self.model_extra:
            del self.model_extra[name]
            return
        super().__setattr__(name, value)

    @model_validator(mode="after")
    def validate_extensions(""")],
     ACC + '''
from asyncapi3.models.info import Info
m = Info.model_validate({"title": "t", "version": "1", "x-a": 1})
setattr(m, "x-a", None)
assert m == Info.model_validate({"title": "t", "version": "1", "x-a": None})
assert m.model_dump() == {"title": "t", "version": "1", "x-a": None}
''', "assigning null to an extension that is present", "the extension disappears instead of becoming null")
seed("c18-factory-lower",
     [(M + "base.py", 'return cls(ref=f"#/components/messageTraits/{message_trait_name}")', 'return cls(ref=f"#/components/messageTraits/{message_trait_name.strip(\'-\')}")')],
     ACC + '''
from asyncapi3.models.base import Reference as R
assert R.to_component_message_trait_name("a-b").ref == "#/components/messageTraits/a-b"
assert R.to_component_message_trait_name("-a").ref == "#/components/messageTraits/-a"
''', "a name that starts or ends with a hyphen", "the reference points at another entry")
seed("c18-hash-cached",
     [(M + "base.py", "        return self.ref.__hash__()", """        cached = self.__dict__.get("_hash")
        if cached is None:
            cached = self.ref.__hash__()
            self.__dict__["_hash"] = cached
        return cached""")],
     ACC + '''
from asyncapi3.models.base import Reference as R
a, b = R(ref="#/a"), R(ref="#/a")
assert hash(a) == hash(b)
assert a == b
c = R(ref="#/b")
hash(c)
assert c == R(ref="#/b")
c.ref = "#/a"
assert hash(c) == hash(b)
''', "a reference that was hashed before", "it no longer equals one that was not, and keeps its hash when its text changes")
seed("c19-alias-only",
     [(B + "sqs.py", "class SQSRedrivePolicy(NonExtendableBaseModel):", "class SQSRedrivePolicy(NonExtendableBaseModel, validate_by_name=False):")],
     ACC + '''
from asyncapi3.models.bindings.sqs import SQSRedrivePolicy as P
assert accepts(P.model_validate, {"deadLetterQueue": {"arn": "a"}})
assert accepts(P.model_validate, {"dead_letter_queue": {"arn": "a"}})
''', "a field given by its Python name", "only the document name is accepted")
seed("c20-collect-errors",
     [(M + "asyncapi.py", """            for validator_cls in self.extra_validators:
                processor = validator_cls()
                processor(self)""", """            errors = []
            for validator_cls in self.extra_validators:
                processor = validator_cls()
                try:
                    processor(self)
                except ValueError as exc:
                    errors.append(exc)
            if errors:
                raise errors[0]""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
log = []


class A:
    def __call__(self, spec):
        log.append("a")
        raise ValueError("no")


class B:
    def __call__(self, spec):
        log.append("b")
        return spec


assert not accepts(AsyncAPI3.model_validate, {"info": {"title": "t", "version": "1"}, "extra_validators": [A, B]})
assert log == ["a"], log
''', "a refusing validator followed by another", "validators after the refusal still run")
seed("c20-assertion-swallowed",
     [(M + "asyncapi.py", """                processor = converter_cls()
                processor(self)""", """                processor = converter_cls()
                try:
                    processor(self)
                except AssertionError:
                    # the converter does not apply to this document
                    continue""")],
     ACC + '''
from asyncapi3 import AsyncAPI3


class A:
    def __call__(self, spec):
        assert spec.info.title != "t"
        return spec


assert not accepts(AsyncAPI3.model_validate, {"info": {"title": "t", "version": "1"}, "extra_converters": [A]})
assert accepts(AsyncAPI3.model_validate, {"info": {"title": "u", "version": "1"}, "extra_converters": [A]})
''', "a converter that fails an assertion", "the document is accepted although a converter refused it")
seed("c21-blank-title",
     [(M + "asyncapi.py", """        info = Info(
            title=title,""", """        info = Info(
            title=title or "Sample APP",""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
assert AsyncAPI3.as_builder().info.title == "Sample APP"
assert AsyncAPI3.as_builder(title="").info.title == ""
''', "an empty title", "the builder replaces an empty title")
seed("c21-components-completed",
     [(M + "asyncapi.py", """        spec = cls(**init_params)

        return spec""", """        spec = cls(**init_params)
        if spec.components is not None and spec.components.tags is None:
            spec.components.tags = TagsDict({})

        return spec""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
assert AsyncAPI3.as_builder().model_dump()["components"]["tags"] == {}
assert AsyncAPI3.as_builder(components={"schemas": {}}).model_dump()["components"] == {"schemas": {}}
''', "components given to the builder without tags", "the builder adds to the components it was given")
seed("c22-same-validator",
     [(V + "tags_ref_validator.py", """        tag_key = ref_value.removeprefix("#/components/tags/")
        if (
            not spec.components""", """        tag_key = ref_value.removeprefix("#/components/tags/")
        known = self.__dict__.setdefault("_known", {})
        if tag_key in known.get(id(spec.components), ()):
            return
        if spec.components and spec.components.tags:
            known[id(spec.components)] = set(spec.components.tags.root)
        if (
            not spec.components""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import TagsRefValidator
m = AsyncAPI3.model_validate({"info": {"title": "t", "version": "1", "tags": [{"$ref": "#/components/tags/a"}]}, "components": {"tags": {"a": {"name": "n"}}}})
v = TagsRefValidator()
assert accepts(v, m)
del m.components.tags["a"]
assert not accepts(TagsRefValidator(), m)
assert not accepts(v, m)
''', "the same validator object asked twice about a document that changed in between", "a deleted tag is still taken as known")
seed("c22-input-popped",
     [(M + "server.py", """    enum: list[str] | None = Field(""", """    @model_validator(mode="before")
    @classmethod
    def drop_empty_examples(cls, data: Any) -> Any:
        \"\"\"Treat empty examples as absent.\"\"\"
        if isinstance(data, dict) and data.get("examples", ()) is None:
            data.pop("examples")
        return data

    enum: list[str] | None = Field("""),
      (M + "server.py", "from pydantic import Field", "from typing import Any\n\nfrom pydantic import Field, model_validator")],
     ACC + '''
from asyncapi3.models.server import ServerVariable
d = {"enum": ["a"], "examples": None}
ServerVariable.model_validate(d)
assert d == {"enum": ["a"], "examples": None}
''', "an input mapping with examples given as null", "parsing removes a field from the caller's mapping")
seed("c23-ref-as-schema",
     [(B + "mqtt.py", "    response_topic: str | Schema | Reference | None = Field(", "    response_topic: str | Schema | None = Field(")],
     ACC + '''
from asyncapi3.models.base import Reference
from asyncapi3.models.bindings.mqtt import MQTTMessageBindings as P
m = P.model_validate({"responseTopic": {"$ref": "#/a"}})
assert isinstance(m.response_topic, Reference)
assert m.model_dump()["responseTopic"] == {"$ref": "#/a"}
''', "a reference at a place where a schema may stand too", "the reference is read as a schema")
seed("c23-ref-summary",
     [(M + "base.py", """    ref: str = Field(
        alias="$ref",""", """    @model_validator(mode="before")
    @classmethod
    def drop_annotations(cls, data: Any) -> Any:
        \"\"\"Ignore the annotations newer versions allow beside "$ref".\"\"\"
        if isinstance(data, dict) and "$ref" in data:
            return {k: v for k, v in data.items() if k not in ("summary", "description")}
        return data

    ref: str = Field(
        alias="$ref","""),
      (M + "base.py", "from pydantic import AnyUrl, Field", "from typing import Any\n\nfrom pydantic import AnyUrl, Field, model_validator")],
     ACC + '''
from asyncapi3.models.base import Reference
assert accepts(Reference.model_validate, {"$ref": "a"})
assert not accepts(Reference.model_validate, {"$ref": "a", "summary": "s"})
''', "a summary or description beside '$ref'", "the reference is accepted and the annotation is lost")
seed("c24-trusted-correlation",
     [(M + "message.py", "class MessageExample(ExtendableBaseModel):", "class MessageExample(ExtendableBaseModel, revalidate_instances=\"never\"):")],
     ACC + '''
from asyncapi3.models.message import Message, MessageExample
e = MessageExample(payload=1)
assert accepts(Message, examples=[e])
e.__dict__["name"] = 5
assert not accepts(Message, examples=[e])
''', "an example object changed behind its own check", "it is accepted into a message")
seed("c24-subclass-only",
     [(B + "amqp.py", "class AMQPQueue(NonExtendableBaseModel):", "class AMQPQueue(NonExtendableBaseModel, revalidate_instances=\"subclass-instances\"):")],
     ACC + '''
from asyncapi3.models.bindings.amqp import AMQPChannelBindings, AMQPQueue
q = AMQPQueue(name="n")
assert accepts(AMQPChannelBindings, is_="queue", queue=q)
q.__dict__["name"] = "n" * 300
assert not accepts(AMQPChannelBindings, is_="queue", queue=q)
''', "a queue object changed behind its own checks", "it is accepted into a channel binding")
seed("c25-lax-qos",
     [(B + "mqtt.py", "    qos: Literal[0, 1, 2] | None = Field(\n        default=None,", "    qos: int | None = Field(\n        default=None,\n        ge=0,\n        le=2,")],
     ACC + '''
from asyncapi3.models.bindings.mqtt import MQTTOperationBindings as P
assert accepts(P, qos=2)
assert not accepts(P, qos=3)
assert not accepts(P.model_validate, {"qos": "1"})
''', "a quality of service given as text", "a text is accepted for an enumerated number")
seed("c25-alias-value",
     [(B + "jms.py", "    destination_type: Literal[\"queue\", \"fifo-queue\"] | None = Field(", "    destination_type: Literal[\"queue\", \"fifo-queue\", \"fifo_queue\"] | None = Field(")],
     ACC + '''
from asyncapi3.models.bindings.jms import JMSChannelBindings as P
assert accepts(P.model_validate, {"destination": "d", "destinationType": "fifo-queue"})
assert not accepts(P.model_validate, {"destination": "d", "destinationType": "fifo_queue"})
''', "the value with '_' for '-'", "a value outside the documented ones is accepted")
seed("c26-coerced-numbers",
     [(M + "server.py", "class ServerVariable(ExtendableBaseModel):", "class ServerVariable(ExtendableBaseModel, coerce_numbers_to_str=True):")],
     ACC + '''
from asyncapi3.models.server import ServerVariable
assert accepts(ServerVariable.model_validate, {"enum": ["1"]})
assert not accepts(ServerVariable.model_validate, {"enum": [1]})
''', "a number in a list of texts", "numbers are accepted where texts have to stand")
seed("c26-single-wrapped",
     [(M + "server.py", "    host: str = Field(", """    @field_validator("security", mode="before")
    @classmethod
    def wrap_single_scheme(cls, value: Any) -> Any:
        \"\"\"Accept a single scheme in place of a list.\"\"\"
        return [value] if isinstance(value, dict) else value

    host: str = Field("""),
      (M + "server.py", "from pydantic import Field", "from typing import Any\n\nfrom pydantic import Field, field_validator")],
     ACC + '''
from asyncapi3.models.server import Server
assert accepts(Server.model_validate, {"host": "h", "protocol": "p", "security": [{"type": "plain"}]})
assert not accepts(Server.model_validate, {"host": "h", "protocol": "p", "security": {"type": "plain"}})
''', "an object where a list belongs", "an object is accepted in place of a list")
seed("c27-warned-once",
     [(V + "tags_ref_validator.py", """        logging.warning(
            f"{context.capitalize()} tag""", """        warned = TagsRefValidator.__dict__["_warned"]
        if (context, len(tag_ref.ref)) in warned:
            return
        warned.add((context, len(tag_ref.ref)))
        logging.warning(
            f"{context.capitalize()} tag"""),
      (V + "tags_ref_validator.py", """    def __call__(self, spec: AsyncAPI3) -> AsyncAPI3:""", """    _warned: set[tuple[str, int]] = set()

    def __call__(self, spec: AsyncAPI3) -> AsyncAPI3:""")],
     '''
import logging
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import TagsRefValidator
out = []


class H(logging.Handler):
    def emit(self, record):
        out.append(record.getMessage())


logging.getLogger().addHandler(H())
m = AsyncAPI3.model_validate({"info": {"title": "t", "version": "1", "tags": [{"$ref": "http://a"}, {"$ref": "http://b"}]}})
TagsRefValidator()(m)
assert any("http://a" in x for x in out)
assert any("http://b" in x for x in out)
''', "two external references in one list, with texts of the same length", "the second external reference is not reported")
seed("c27-known-first",
     [(V + "external_docs_ref_validator.py", """        if ref_value.startswith("#"):
            self.validate_internal_external_doc_ref(spec, ref, context)
            return
""", """        if ref_value.startswith("#"):
            known = spec.components.external_docs if spec.components else None
            if known and ref_value.removeprefix("#/components/externalDocs/") in known:
                return
            self.validate_internal_external_doc_ref(spec, ref, context)
            return
""")],
     ACC + '''
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import ExternalDocsRefValidator
asked = []


class Mine(ExternalDocsRefValidator):
    def validate_internal_external_doc_ref(self, spec, ref, context):
        asked.append(ref.ref)
        raise ValueError("no")


def d(r):
    return AsyncAPI3.model_validate({"info": {"title": "t", "version": "1", "externalDocs": {"$ref": r}}, "components": {"externalDocs": {"a": {"url": "http://a.b/"}}}})


assert not accepts(Mine(), d("#/components/externalDocs/b"))
assert not accepts(Mine(), d("#/components/externalDocs/a"))
''', "an overridden check of internal references, and a reference to an existing entry", "the override is not asked")
seed("c27-quiet-relative",
     [(V + "external_docs_ref_validator.py", """        logging.warning(
            "%s external""", """        if not ref.ref.partition(":")[1]:
            logging.info("Relative reference '%s' is not validated", ref.ref)
            return
        logging.warning(
            "%s external""")],
     '''
import logging
from asyncapi3 import AsyncAPI3
from asyncapi3.validators import ExternalDocsRefValidator
out = []


class H(logging.Handler):
    def emit(self, record):
        if record.levelno == logging.WARNING:
            out.append(record.getMessage())


logging.getLogger().addHandler(H())
for r in ("http://a/b", "./docs.yaml"):
    m = AsyncAPI3.model_validate({"info": {"title": "t", "version": "1", "externalDocs": {"$ref": r}}})
    ExternalDocsRefValidator()(m)
assert any("http://a/b" in x for x in out)
assert any("./docs.yaml" in x for x in out)
''', "an external reference that is not a full URL", "it is not reported by a warning")
