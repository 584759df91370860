From 7f5bd67bb3acee4d00a0cc3ca0eb7ded59f71906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/13] fix: reject a trailing newline in keys, extension
 names, versions and e-mails

'$' also matches before a final line feed, so 'name\n' passed the documented
patterns; \d in the version pattern also accepted non-ASCII digits.
---
 asyncapi3/models/asyncapi.py    | 2 +-
 asyncapi3/models/base_models.py | 2 +-
 asyncapi3/models/helpers.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..c7abd78 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -258,7 +258,7 @@ class AsyncAPI3(ExtendableBaseModel):
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
         pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
-        if not re.match(pattern, version):
+        if not re.fullmatch(pattern, version, re.ASCII):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
                 "major.minor.patch[-suffix]"
diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..557fa6f 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -45,7 +45,7 @@ class ExtendableBaseModel(BaseModel):
 
         extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
         for key in self.model_extra:
-            if not extension_pattern.match(key):
+            if not extension_pattern.fullmatch(key):
                 raise ValueError(
                     f"Field '{key}' does not match specification extension pattern. "
                     f"Extensions must start with 'x-' and contain only word "
diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..704c6f0 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -31,7 +31,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
     """
     pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
     try:
-        if not pattern.match(key):
+        if not pattern.fullmatch(key):
             raise ValueError(
                 f"Field '{key}' does not match patterned object key pattern. "
                 "Keys must contain letters, digits, hyphens, and underscores."
@@ -54,7 +54,7 @@ class EmailStr(str):
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
         pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
-        if not re.match(pattern, value):
+        if not re.fullmatch(pattern, value):
             raise ValueError("Invalid email format")
         return value
 
-- 
2.43.0


From a0cdc7bcf12edd146b71e1f0b118f63ea33405ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 02/13] fix: strip only the leading prefix from tag and
 externalDocs references

str.replace removed every occurrence, so '#/components/tags/a#/components/tags/'
was validated as a reference to tag 'a'.
---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..60e190b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -524,7 +524,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..61032c5 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -281,7 +281,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0


From c5e29d701662e46874b387c85fed47fdfc69fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 03/13] fix: validate items assigned to patterned objects

obj[key] = value stored any key and any value without validation, leaving an
object that its own type rejects.
---
 asyncapi3/models/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 557fa6f..40c3c6a 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -94,7 +94,8 @@ class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        # Assigned items obey the same key and value rules as items passed on creation.
+        self.root[key] = type(self).model_validate({key: value}).root[key]
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From 9db4fc3a49c7ba4f25a7d43212a8b1b5dc2ae0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 04/13] fix: keep the previous state when a validated
 assignment fails

pydantic stores the new value before running mode='after' model validators, so a
rejected assignment left e.g. a SecurityScheme without its required fields.
---
 asyncapi3/models/base_models.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 40c3c6a..dd7657a 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -5,7 +5,7 @@ __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from typing import Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +14,29 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class AtomicAssignmentModel(BaseModel):
+    """
+    Base model whose failed assignments leave the object unchanged.
+
+    With ``validate_assignment`` pydantic stores the new value before it runs
+    ``mode="after"`` model validators and does not restore the previous state when
+    one of them rejects it.
+    """
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        fields = dict(self.__dict__)
+        extra = None if self.model_extra is None else dict(self.model_extra)
+        fields_set = set(self.model_fields_set)
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            object.__setattr__(self, "__dict__", fields)
+            object.__setattr__(self, "__pydantic_extra__", extra)
+            object.__setattr__(self, "__pydantic_fields_set__", fields_set)
+            raise
+
+
+class ExtendableBaseModel(AtomicAssignmentModel):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +76,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(AtomicAssignmentModel):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +93,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(AtomicAssignmentModel, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From 2d8c1c2ece299cd8192478bd0b13ee4c32a60fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 05/13] fix: limit the Solace clientName to 160 UTF-8 bytes as
 documented

max_length counts characters, so 160 non-ASCII characters (up to 640 bytes) passed.
---
 asyncapi3/models/bindings/solace.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asyncapi3/models/bindings/solace.py b/asyncapi3/models/bindings/solace.py
index 194653f..9ad21fe 100644
--- a/asyncapi3/models/bindings/solace.py
+++ b/asyncapi3/models/bindings/solace.py
@@ -51,6 +51,14 @@ class SolaceServerBindings(NonExtendableBaseModel):
         ),
     )
 
+    @field_validator("client_name")
+    @classmethod
+    def validate_client_name(cls, client_name: str | None) -> str | None:
+        """Validate that the client name fits in 160 bytes of UTF-8."""
+        if client_name is not None and len(client_name.encode()) > 160:
+            raise ValueError("clientName must be at most 160 bytes when UTF-8 encoded")
+        return client_name
+
 
 class SolaceChannelBindings(NonExtendableBaseModel):
     """
-- 
2.43.0


From 86a274f3a38cc77764c1e30391f74f040c4ba2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 06/13] fix: do not mistake user-chosen keys for field names in
 reference paths

A schema, channel or message named like a pattern literal ('root', 'channel',
'messages', 'tags', ...) made UnifiedReferencesValidator expect the wrong type and
reject a valid document, or accept a reference to the wrong kind of object.
---
 asyncapi3/validators/unified_references_validator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..4e92bea 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -369,7 +369,10 @@ class UnifiedReferencesValidator(ProcessorProtocol):
         Raises:
             ValueError: If the reference path cannot be matched to any expected type
         """
-        normalized_path = self._normalize_path(ref_path=ref_path)
+        # The segment after a root marker is a user-chosen key: mask it, so that a
+        # schema named "channel" or "root" is still recognised as a schema.
+        masked_path = re.sub(r"\.root\.(?:\\.|[^.\\])+", ".root._", ref_path)
+        normalized_path = self._normalize_path(ref_path=masked_path)
 
         best_match = None
         best_score = None
-- 
2.43.0


From ed2870275b01615c85451cdbf614bee04e29fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 07/13] fix: check the externalDocs and tag references
 documented as verified

docs/extra_validators/references.md marks these as verified, but dangling references
passed: externalDocs in messages of components channels (and their traits and trait
tags), in traits of components messages and operations, and tags in message and
operation traits.
---
 .../validators/external_docs_ref_validator.py | 60 +++++++++++++++++++
 asyncapi3/validators/tags_ref_validator.py    | 23 +++++++
 2 files changed, 83 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 60e190b..20a85a4 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -56,13 +56,16 @@ class ExternalDocsRefValidator(ProcessorProtocol):
 
         # Validate externalDocs in all component collections
         self.validate_components_channels_external_docs_refs(spec)
+        self.validate_components_channels_messages_external_docs_refs(spec)
         self.validate_components_external_docs_external_docs_refs(spec)  # self
         self.validate_components_messages_external_docs_refs(spec)
         self.validate_components_messages_headers_external_docs_refs(spec)
         self.validate_components_messages_payload_external_docs_refs(spec)
+        self.validate_components_messages_traits_external_docs_refs(spec)
         self.validate_components_message_traits_external_docs_refs(spec)
         self.validate_components_message_traits_headers_external_docs_refs(spec)
         self.validate_components_operations_external_docs_refs(spec)
+        self.validate_components_operations_traits_external_docs_refs(spec)
         self.validate_components_operation_traits_external_docs_refs(spec)
         self.validate_components_servers_external_docs_refs(spec)
         self.validate_components_tags_external_docs_refs(spec)
@@ -295,6 +298,22 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             context_prefix="components",
         )
 
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages of components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            for msg_name, msg in channel.messages.root.items():
+                context = f"message '{msg_name}' in components channel '{channel_name}'"
+                if isinstance(msg, Reference):
+                    continue
+                self._validate_ref_field(spec, msg, context)
+                self._validate_traits_external_docs_refs(spec, msg.traits, context)
+
     def validate_components_external_docs_external_docs_refs(
         self, spec: AsyncAPI3
     ) -> None:
@@ -347,6 +366,19 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 spec, msg.payload, f"payload in components message '{msg_name}'"
             )
 
+    def validate_components_messages_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        for msg_name, msg in spec.components.messages.root.items():
+            if isinstance(msg, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, msg.traits, f"components message '{msg_name}'"
+            )
+
     def validate_components_message_traits_external_docs_refs(
         self, spec: AsyncAPI3
     ) -> None:
@@ -388,6 +420,19 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             context_prefix="components",
         )
 
+    def validate_components_operations_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        for op_name, operation in spec.components.operations.root.items():
+            if isinstance(operation, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, operation.traits, f"components operation '{op_name}'"
+            )
+
     def validate_components_operation_traits_external_docs_refs(
         self, spec: AsyncAPI3
     ) -> None:
@@ -562,3 +607,18 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 continue
             self._validate_ref_field(spec, tag, f"tag {tag_idx} in {context}")
+
+    def _validate_traits_external_docs_refs(
+        self,
+        spec: AsyncAPI3,
+        traits: list[Any] | None,
+        context: str,
+    ) -> None:
+        """Validate externalDocs references in a list of traits and in their tags."""
+        for trait_idx, trait in enumerate(traits or []):
+            if isinstance(trait, Reference):
+                continue
+            self._validate_ref_field(spec, trait, f"trait {trait_idx} in {context}")
+            self._validate_tags_external_docs_refs(
+                spec, trait.tags or [], f"trait {trait_idx} in {context}"
+            )
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 61032c5..8232076 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -58,6 +58,7 @@ class TagsRefValidator(ProcessorProtocol):
         self.validate_components_message_traits_tags_refs(spec)
         self.validate_components_channels_messages_tags_refs(spec)
         self.validate_components_tags_refs(spec)
+        self.validate_traits_tags_refs(spec)
 
         return spec
 
@@ -197,6 +198,28 @@ class TagsRefValidator(ProcessorProtocol):
                     f"message '{message_name}' in components channel '{channel_name}'",
                 )
 
+    def validate_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of messages and operations."""
+        collections = [spec.operations]
+        channels = [spec.channels]
+        if spec.components:
+            collections += [spec.components.operations, spec.components.messages]
+            channels.append(spec.components.channels)
+        for channels_object in channels:
+            for channel in channels_object.root.values() if channels_object else []:
+                if not isinstance(channel, Reference):
+                    collections.append(channel.messages)
+
+        for collection in collections:
+            for name, obj in collection.root.items() if collection else []:
+                if isinstance(obj, Reference):
+                    continue
+                for trait in obj.traits or []:
+                    if not isinstance(trait, Reference):
+                        self._validate_tags_list(
+                            spec, trait.tags or [], f"trait of '{name}'"
+                        )
+
     def validate_components_tags_refs(self, spec: AsyncAPI3) -> None:
         """Validate tag references in components tags."""
         if not spec.components or not spec.components.tags:
-- 
2.43.0


From d785dfcba8854080682275167033a8a64feb18d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 08/13] fix: accept references inside inline operation and
 message traits

The wildcard entries for members of a list of traits also matched the
fields of an inline trait, so a valid tag, externalDocs, correlationId or
security reference there was reported as having the wrong type.
---
 asyncapi3/validators/unified_references_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 4e92bea..443da91 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -66,6 +66,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.message_traits.*": MessageTrait,
     "**.messages.*.traits": MessageTrait,
     "**.messages.*.traits.*": MessageTrait,
+    "**.messages.*.traits.correlation_id": CorrelationID,
+    "**.messages.*.traits.external_docs": ExternalDocumentation,
+    "**.messages.*.traits.tags": Tag,
     "**.message_traits.*.headers": MultiFormatSchema | Schema,
     "**.messages.*.headers": MultiFormatSchema | Schema,
     "**.messages.*.payload": MultiFormatSchema | Schema,
@@ -86,6 +89,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.operation_traits.*": OperationTrait,
     "**.operations.*.traits": OperationTrait,
     "**.operations.*.traits.*": OperationTrait,
+    "**.operations.*.traits.external_docs": ExternalDocumentation,
+    "**.operations.*.traits.security": SecurityScheme,
+    "**.operations.*.traits.tags": Tag,
     "**.parameters.*": Parameter,
     "**.*_bindings.*.*.client_id": Schema,
     "**.*_bindings.*.*.correlation_data": Schema,
-- 
2.43.0


From 2892e1e7a4235beccfbdc01b1a197ffd1207c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 09/13] fix: accept a reference to a server variable named
 "root"

Server variables are a plain mapping, so a variable named "root" was taken
for the marker of a patterned object and its reference rejected as being of
an unknown kind.
---
 asyncapi3/validators/unified_references_validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 443da91..6e90e30 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -376,8 +376,10 @@ class UnifiedReferencesValidator(ProcessorProtocol):
             ValueError: If the reference path cannot be matched to any expected type
         """
         # The segment after a root marker is a user-chosen key: mask it, so that a
-        # schema named "channel" or "root" is still recognised as a schema.
+        # schema named "channel" or "root" is still recognised as a schema. So is a
+        # final "root": no reference stands at a root marker itself.
         masked_path = re.sub(r"\.root\.(?:\\.|[^.\\])+", ".root._", ref_path)
+        masked_path = re.sub(r"\.root\Z", "._", masked_path)
         normalized_path = self._normalize_path(ref_path=masked_path)
 
         best_match = None
-- 
2.43.0


From 4d56c93c1b8a9f1f931c84d3fd591155644dd47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:42 +0000
Subject: [PATCH 10/13] fix: let extra processors assign fields of the document

A converter that assigned a field of the document validated it again, which ran
the converter again, without end.
---
 asyncapi3/models/asyncapi.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index c7abd78..8ddae8d 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -10,6 +10,7 @@ from pydantic import (
     AnyUrl,
     Field,
     HttpUrl,
+    PrivateAttr,
     field_validator,
     model_validator,
 )
@@ -153,6 +154,9 @@ class AsyncAPI3(ExtendableBaseModel):
         ),
     )
 
+    # True while extra processors run on this document
+    _processing: bool = PrivateAttr(default=False)
+
     @classmethod
     def as_builder(
         cls,
@@ -277,8 +281,16 @@ class AsyncAPI3(ExtendableBaseModel):
     @model_validator(mode="after")
     def run_extra_processors(self) -> "AsyncAPI3":
         """Run all extra processors after model validation."""
-        self._run_extra_converters()
-        self._run_extra_validators()
+        # Processors may assign fields of the document, which validates it again.
+        if self._processing:
+            return self
+
+        self._processing = True
+        try:
+            self._run_extra_converters()
+            self._run_extra_validators()
+        finally:
+            self._processing = False
         return self
 
     def _run_extra_converters(self) -> None:
-- 
2.43.0


From 3481455185d821a46732b480f3955c70559970e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 11/13] fix: resolve references through schemas with a keyword
 called "root"

---
 asyncapi3/validators/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..3282830 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -8,7 +8,7 @@ import logging
 
 from typing import TYPE_CHECKING, Any, NamedTuple
 
-from pydantic import BaseModel
+from pydantic import BaseModel, RootModel
 
 from asyncapi3.models.base import Reference
 
@@ -158,6 +158,9 @@ def _resolve_path_part(
 
 def _has_root_mapping(obj: Any) -> bool:
     """Return True when object has a root dict for navigation."""
+    # A free-form schema keyword may be called "root", too.
+    if isinstance(obj, BaseModel) and not isinstance(obj, RootModel):
+        return False
     return hasattr(obj, "root") and isinstance(obj.root, dict)
 
 
-- 
2.43.0


From dba43aa6b11f793e0c41165bb08c57c4862ec947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 12/13] fix: follow reference chains of any length

A chain of more than about a thousand references ended in a RecursionError instead
of the object it leads to.
---
 asyncapi3/validators/utils.py | 44 +++++++++++++++++------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index 3282830..c0b8723 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -46,29 +46,27 @@ def resolve_reference(
     Raises:
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
-    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
-
-    if _is_external_reference(ref=ref):
-        logger.warning("External reference '%s' cannot be validated locally", ref)
-        return None
-
-    path_parts = _parse_reference_path(ref=ref)
-
-    try:
-        resolved_object, resolved_type, full_path = _resolve_path_parts(
-            spec=spec,
-            path_parts=path_parts,
-        )
-    except AttributeError as exc:
-        raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
-
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
+    # Chains are followed in a loop, so that their length is not limited by the stack.
+    while True:
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+
+        if _is_external_reference(ref=ref):
+            logger.warning("External reference '%s' cannot be validated locally", ref)
+            return None
+
+        path_parts = _parse_reference_path(ref=ref)
+
+        try:
+            resolved_object, resolved_type, full_path = _resolve_path_parts(
+                spec=spec,
+                path_parts=path_parts,
+            )
+        except AttributeError as exc:
+            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+
+        if not isinstance(resolved_object, Reference):
+            break
+        ref = resolved_object.ref
 
     return ReferenceResolutionResult(
         resolved_object=resolved_object,
-- 
2.43.0


From d2bc1256a86fc48122fb3ac4f0b9c138a33d2a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 13/13] fix: run extra processors on copies of a document made
 by a processor

---
 asyncapi3/models/asyncapi.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index 8ddae8d..175df2b 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -4,13 +4,12 @@ __all__ = ["AsyncAPI3"]
 
 import re
 
-from typing import Any
+from typing import Any, ClassVar
 
 from pydantic import (
     AnyUrl,
     Field,
     HttpUrl,
-    PrivateAttr,
     field_validator,
     model_validator,
 )
@@ -154,8 +153,9 @@ class AsyncAPI3(ExtendableBaseModel):
         ),
     )
 
-    # True while extra processors run on this document
-    _processing: bool = PrivateAttr(default=False)
+    # Identities of the documents extra processors run on now: no part of a document,
+    # so that a copy made by a processor runs its own processors.
+    _processing: ClassVar[set[int]] = set()
 
     @classmethod
     def as_builder(
@@ -282,15 +282,15 @@ class AsyncAPI3(ExtendableBaseModel):
     def run_extra_processors(self) -> "AsyncAPI3":
         """Run all extra processors after model validation."""
         # Processors may assign fields of the document, which validates it again.
-        if self._processing:
+        if id(self) in self._processing:
             return self
 
-        self._processing = True
+        self._processing.add(id(self))
         try:
             self._run_extra_converters()
             self._run_extra_validators()
         finally:
-            self._processing = False
+            self._processing.discard(id(self))
         return self
 
     def _run_extra_converters(self) -> None:
-- 
2.43.0

