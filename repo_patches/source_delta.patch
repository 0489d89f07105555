From 4d772bde27f8fb66757cefd25bd52c3f3dfce00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 01/17] fix: restore model state when an attribute assignment
 is rejected

---
 asyncapi3/models/base_models.py | 34 +++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 25b3b60..7f60390 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -5,7 +5,8 @@ __all__ = ["ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"
 import re
 
 from collections.abc import Iterator
-from typing import Generic, TypeVar
+from copy import copy
+from typing import Any, Generic, TypeVar
 
 from pydantic import BaseModel, ConfigDict, RootModel, model_validator
 
@@ -14,7 +15,32 @@ from asyncapi3.models.helpers import validate_patterned_key
 T = TypeVar("T")
 
 
-class ExtendableBaseModel(BaseModel):
+class _RollbackAssignmentMixin:
+    """
+    Mixin restoring the instance state when an attribute assignment is rejected.
+
+    Pydantic stores the assigned value before running `mode="after"` model validators.
+    Without a rollback a rejected assignment would leave invalid data in the instance.
+    """
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        state = {
+            attribute: copy(getattr(self, attribute, None))
+            for attribute in (
+                "__dict__",
+                "__pydantic_extra__",
+                "__pydantic_fields_set__",
+            )
+        }
+        try:
+            super().__setattr__(name, value)
+        except Exception:
+            for attribute, attribute_value in state.items():
+                object.__setattr__(self, attribute, attribute_value)
+            raise
+
+
+class ExtendableBaseModel(_RollbackAssignmentMixin, BaseModel):
     """
     Base model that allows specification extensions.
 
@@ -54,7 +80,7 @@ class ExtendableBaseModel(BaseModel):
         return self
 
 
-class NonExtendableBaseModel(BaseModel):
+class NonExtendableBaseModel(_RollbackAssignmentMixin, BaseModel):
     """
     Base model that does not allow specification extensions or extra fields.
 
@@ -71,7 +97,7 @@ class NonExtendableBaseModel(BaseModel):
     )
 
 
-class PatternedRootModel(RootModel[dict[str, T]], Generic[T]):
+class PatternedRootModel(_RollbackAssignmentMixin, RootModel[dict[str, T]], Generic[T]):
     """
     Base class for AsyncAPI patterned objects that validate key patterns.
 
-- 
2.43.0


From d2399511bc7424577e3d2872290a280d2a968fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 02/17] fix: validate items assigned through patterned object
 __setitem__

---
 asyncapi3/models/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 7f60390..3beb6d0 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -120,7 +120,8 @@ class PatternedRootModel(_RollbackAssignmentMixin, RootModel[dict[str, T]], Gene
         return self.root[item]
 
     def __setitem__(self, key: str, value: T) -> None:
-        self.root[key] = value
+        # Items are validated the same way as any other assignment.
+        self.root[key] = type(self).model_validate({key: value}).root[key]
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From d0c0c251cfa8ff86040118f7d3f971039fd63010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 03/17] fix: reject trailing newlines and non-ASCII digits in
 validated strings

---
 asyncapi3/models/asyncapi.py    | 2 +-
 asyncapi3/models/base_models.py | 2 +-
 asyncapi3/models/helpers.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index eb0ab07..4901df3 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -257,7 +257,7 @@ class AsyncAPI3(ExtendableBaseModel):
     def validate_asyncapi_version(cls, version: str) -> str:
         """Validate AsyncAPI version format (semantic versioning) and compatibility."""
         # Pattern for semantic versioning: major.minor.patch[-suffix]
-        pattern = r"^\d+\.\d+\.\d+(-[\w\.\-]+)?$"
+        pattern = r"^[0-9]+\.[0-9]+\.[0-9]+(-[\w\.\-]+)?\Z"
         if not re.match(pattern, version):
             raise ValueError(
                 "asyncapi must be in semantic versioning format: "
diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 3beb6d0..747f18a 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -69,7 +69,7 @@ class ExtendableBaseModel(_RollbackAssignmentMixin, BaseModel):
         if not self.model_extra:
             return self
 
-        extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+$")
+        extension_pattern = re.compile(r"^x-[\w\d\.\x2d_]+\Z")
         for key in self.model_extra:
             if not extension_pattern.match(key):
                 raise ValueError(
diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cca26d9..cb966bc 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -29,7 +29,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
         ValueError: If the key does not match the required pattern.
         TypeError: If the key is not a string.
     """
-    pattern = re.compile(r"^[A-Za-z0-9_\-]+$")
+    pattern = re.compile(r"^[A-Za-z0-9_\-]+\Z")
     try:
         if not pattern.match(key):
             raise ValueError(
@@ -53,7 +53,7 @@ class EmailStr(str):
     def _validate_email(value: str) -> str:
         """Validate email format and return EmailStr instance."""
         # Email regex pattern that rejects consecutive dots
-        pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}$"
+        pattern = r"^(?!.*\.\.)[a-zA-Z0-9._%+-]+@[a-zA-Z0-9.-]+\.[a-zA-Z]{2,}\Z"
         if not re.match(pattern, value):
             raise ValueError("Invalid email format")
         return value
-- 
2.43.0


From 33bc5d5182fa783ded50c084f90b4d789ec8415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/17] fix: strip only the leading pointer prefix in tag and
 external docs refs

---
 asyncapi3/validators/external_docs_ref_validator.py | 2 +-
 asyncapi3/validators/tags_ref_validator.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index f186821..60e190b 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -524,7 +524,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                 "but points elsewhere."
             )
 
-        doc_key = ref_value.replace("#/components/externalDocs/", "")
+        doc_key = ref_value.removeprefix("#/components/externalDocs/")
         if (
             not spec.components
             or not spec.components.external_docs
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 9ee30b9..61032c5 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -281,7 +281,7 @@ class TagsRefValidator(ProcessorProtocol):
                 "#/components/tags/ but points elsewhere."
             )
 
-        tag_key = ref_value.replace("#/components/tags/", "")
+        tag_key = ref_value.removeprefix("#/components/tags/")
         if (
             not spec.components
             or not spec.components.tags
-- 
2.43.0


From d429742bdf1ab3c47a4460f1e07367f7de6dbf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 05/17] fix: check the documented trait and components message
 locations in ref validators

---
 .../validators/external_docs_ref_validator.py | 61 ++++++++++++++++++
 asyncapi3/validators/tags_ref_validator.py    | 62 +++++++++++++++++++
 2 files changed, 123 insertions(+)

diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 60e190b..27441bc 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -66,6 +66,9 @@ class ExternalDocsRefValidator(ProcessorProtocol):
         self.validate_components_operation_traits_external_docs_refs(spec)
         self.validate_components_servers_external_docs_refs(spec)
         self.validate_components_tags_external_docs_refs(spec)
+        self.validate_components_channels_messages_external_docs_refs(spec)
+        self.validate_components_messages_traits_external_docs_refs(spec)
+        self.validate_components_operations_traits_external_docs_refs(spec)
 
         # Validate schemas (separate as they have special handling)
         self.validate_components_schemas_external_docs_refs(spec)
@@ -422,6 +425,48 @@ class ExternalDocsRefValidator(ProcessorProtocol):
                     continue
                 self._validate_ref_field(spec, tag, f"tag '{name}'")
 
+    def validate_components_channels_messages_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in messages within components channels."""
+        if not spec.components or not spec.components.channels:
+            return
+        for channel_name, channel in spec.components.channels.root.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            for msg_name, msg in channel.messages.root.items():
+                if isinstance(msg, Reference):
+                    continue
+                context = f"message '{msg_name}' in components channel '{channel_name}'"
+                self._validate_ref_field(spec, msg, context)
+                self._validate_traits_external_docs_refs(spec, msg.traits, context)
+
+    def validate_components_messages_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components messages."""
+        if not spec.components or not spec.components.messages:
+            return
+        for msg_name, msg in spec.components.messages.root.items():
+            if isinstance(msg, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, msg.traits, f"components message '{msg_name}'"
+            )
+
+    def validate_components_operations_traits_external_docs_refs(
+        self, spec: AsyncAPI3
+    ) -> None:
+        """Validate externalDocs in traits of components operations."""
+        if not spec.components or not spec.components.operations:
+            return
+        for op_name, operation in spec.components.operations.root.items():
+            if isinstance(operation, Reference):
+                continue
+            self._validate_traits_external_docs_refs(
+                spec, operation.traits, f"components operation '{op_name}'"
+            )
+
     def validate_components_schemas_external_docs_refs(self, spec: AsyncAPI3) -> None:
         """Validate externalDocs in schemas."""
         if not spec.components or not spec.components.schemas:
@@ -562,3 +607,19 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 continue
             self._validate_ref_field(spec, tag, f"tag {tag_idx} in {context}")
+
+    def _validate_traits_external_docs_refs(
+        self,
+        spec: AsyncAPI3,
+        traits: list[Any] | None,
+        context: str,
+    ) -> None:
+        """Validate externalDocs references in a list of traits and in their tags."""
+        for trait_idx, trait in enumerate(traits or []):
+            if isinstance(trait, Reference):
+                continue
+            trait_context = f"trait {trait_idx} in {context}"
+            self._validate_ref_field(spec, trait, trait_context)
+            self._validate_tags_external_docs_refs(
+                spec, trait.tags or [], f"tags in {trait_context}"
+            )
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index 61032c5..a934f91 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -58,6 +58,8 @@ class TagsRefValidator(ProcessorProtocol):
         self.validate_components_message_traits_tags_refs(spec)
         self.validate_components_channels_messages_tags_refs(spec)
         self.validate_components_tags_refs(spec)
+        self.validate_operations_traits_tags_refs(spec)
+        self.validate_messages_traits_tags_refs(spec)
 
         return spec
 
@@ -205,6 +207,66 @@ class TagsRefValidator(ProcessorProtocol):
             if isinstance(tag, Reference):
                 self.validate_tag_ref(spec, tag, f"components tag '{tag_name}'")
 
+    def validate_operations_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of root and components operations."""
+        if spec.operations:
+            self._validate_traits_tags_in_collection(
+                spec, spec.operations.root, "operation '{name}'"
+            )
+        if spec.components and spec.components.operations:
+            self._validate_traits_tags_in_collection(
+                spec, spec.components.operations.root, "components operation '{name}'"
+            )
+
+    def validate_messages_traits_tags_refs(self, spec: AsyncAPI3) -> None:
+        """Validate tag references in traits of channels and components messages."""
+        if spec.channels:
+            self._validate_channels_messages_traits_tags(
+                spec, spec.channels.root, "channel"
+            )
+        if spec.components and spec.components.channels:
+            self._validate_channels_messages_traits_tags(
+                spec, spec.components.channels.root, "components channel"
+            )
+        if spec.components and spec.components.messages:
+            self._validate_traits_tags_in_collection(
+                spec, spec.components.messages.root, "components message '{name}'"
+            )
+
+    def _validate_channels_messages_traits_tags(
+        self,
+        spec: AsyncAPI3,
+        channels: dict[str, Any],
+        item_type: str,
+    ) -> None:
+        """Validate tags in traits of messages defined inside channels."""
+        for channel_name, channel in channels.items():
+            if isinstance(channel, Reference) or not channel.messages:
+                continue
+            self._validate_traits_tags_in_collection(
+                spec,
+                channel.messages.root,
+                f"message '{{name}}' in {item_type} '{channel_name}'",
+            )
+
+    def _validate_traits_tags_in_collection(
+        self,
+        spec: AsyncAPI3,
+        objects: dict[str, Any],
+        context_template: str,
+    ) -> None:
+        """Validate tags in traits of a collection of objects."""
+        for object_name, obj in objects.items():
+            if isinstance(obj, Reference) or not obj.traits:
+                continue
+            context = context_template.format(name=object_name)
+            for trait_idx, trait in enumerate(obj.traits):
+                if isinstance(trait, Reference) or not trait.tags:
+                    continue
+                self._validate_tags_list(
+                    spec, trait.tags, f"trait {trait_idx} in {context}"
+                )
+
     def validate_tag_ref(
         self,
         spec: AsyncAPI3,
-- 
2.43.0


From d7dc60bfb506196f6812ae37b9a84d5aa90ffe89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 06/17] fix: keep user-defined keys from matching field
 patterns in reference validation

---
 asyncapi3/validators/unified_references_validator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 747c514..11fa5ab 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -323,7 +323,8 @@ class UnifiedReferencesValidator(ProcessorProtocol):
     ) -> None:
         """Validate references inside a mapping."""
         for key, value in mapping.items():
-            escaped_key = self._escape_path_segment(str(key))
+            # Keys are quoted, so user-defined names never match field name patterns.
+            escaped_key = self._escape_path_segment(f"'{key}'")
             self.validate_references_recursive(
                 spec=spec,
                 obj=value,
-- 
2.43.0


From 2f1eb976fb6aa9332079ccadd2a1133b86557e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 07/17] fix: let processors assign spec attributes without
 restarting processing

---
 asyncapi3/models/asyncapi.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index 4901df3..1e5b789 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -10,6 +10,7 @@ from pydantic import (
     AnyUrl,
     Field,
     HttpUrl,
+    PrivateAttr,
     field_validator,
     model_validator,
 )
@@ -153,6 +154,8 @@ class AsyncAPI3(ExtendableBaseModel):
         ),
     )
 
+    _processing: bool = PrivateAttr(default=False)
+
     @classmethod
     def as_builder(
         cls,
@@ -277,8 +280,16 @@ class AsyncAPI3(ExtendableBaseModel):
     @model_validator(mode="after")
     def run_extra_processors(self) -> "AsyncAPI3":
         """Run all extra processors after model validation."""
-        self._run_extra_converters()
-        self._run_extra_validators()
+        if self._processing:
+            # Assignment made by a running processor, it must not start a new run.
+            return self
+
+        self._processing = True
+        try:
+            self._run_extra_converters()
+            self._run_extra_validators()
+        finally:
+            self._processing = False
         return self
 
     def _run_extra_converters(self) -> None:
-- 
2.43.0


From ae1bd085c73c51f03b1363244e3f74d5b55a35d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 08/17] fix: add the documented AsyncAPI3.model_validate_yaml
 entry point

---
 asyncapi3/models/asyncapi.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index 1e5b789..c7de24c 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -6,6 +6,8 @@ import re
 
 from typing import Any
 
+import yaml
+
 from pydantic import (
     AnyUrl,
     Field,
@@ -156,6 +158,20 @@ class AsyncAPI3(ExtendableBaseModel):
 
     _processing: bool = PrivateAttr(default=False)
 
+    @classmethod
+    def model_validate_yaml(cls, yaml_data: str | bytes, **kwargs: Any) -> "AsyncAPI3":
+        """
+        Validate the given YAML document against the AsyncAPI3 model.
+
+        Args:
+            yaml_data: The YAML document to validate
+            **kwargs: Additional keyword arguments passed to `model_validate`
+
+        Returns:
+            AsyncAPI3: The validated AsyncAPI3 instance
+        """
+        return cls.model_validate(yaml.safe_load(yaml_data), **kwargs)
+
     @classmethod
     def as_builder(
         cls,
-- 
2.43.0


From b87ec39c98d5d4c9c29f6af14ddc89bdc88f2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/17] fix: resolve long reference chains without exhausting
 the recursion limit

---
 asyncapi3/validators/utils.py | 43 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index ead7b3d..e8295d5 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -46,29 +46,26 @@ def resolve_reference(
     Raises:
         ValueError: If reference format is unsupported, circular, or resolution fails
     """
-    visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
-
-    if _is_external_reference(ref=ref):
-        logger.warning("External reference '%s' cannot be validated locally", ref)
-        return None
-
-    path_parts = _parse_reference_path(ref=ref)
-
-    try:
-        resolved_object, resolved_type, full_path = _resolve_path_parts(
-            spec=spec,
-            path_parts=path_parts,
-        )
-    except AttributeError as exc:
-        raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
-
-    if isinstance(resolved_object, Reference):
-        next_ref = resolved_object.ref
-        return resolve_reference(
-            ref=next_ref,
-            spec=spec,
-            visited_refs=visited_refs,
-        )
+    while True:
+        visited_refs = _initialize_visited_refs(ref=ref, visited_refs=visited_refs)
+
+        if _is_external_reference(ref=ref):
+            logger.warning("External reference '%s' cannot be validated locally", ref)
+            return None
+
+        path_parts = _parse_reference_path(ref=ref)
+
+        try:
+            resolved_object, resolved_type, full_path = _resolve_path_parts(
+                spec=spec,
+                path_parts=path_parts,
+            )
+        except AttributeError as exc:
+            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+
+        if not isinstance(resolved_object, Reference):
+            break
+        ref = resolved_object.ref
 
     return ReferenceResolutionResult(
         resolved_object=resolved_object,
-- 
2.43.0


From ee783eec146da0fee1c355d239a650af29df0b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 10/17] fix: accept tag, documentation, security and
 correlation references in inline traits

The generic traits.* patterns outranked the field patterns, so valid references
inside inline operation and message traits were reported as having a wrong type.
---
 asyncapi3/validators/unified_references_validator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asyncapi3/validators/unified_references_validator.py b/asyncapi3/validators/unified_references_validator.py
index 11fa5ab..c3a6757 100644
--- a/asyncapi3/validators/unified_references_validator.py
+++ b/asyncapi3/validators/unified_references_validator.py
@@ -71,6 +71,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.messages.*.payload": MultiFormatSchema | Schema,
     "**.messages.*.traits.*.headers": MultiFormatSchema | Schema,
     "**.messages.*.traits.headers": MultiFormatSchema | Schema,
+    "**.messages.*.traits.correlation_id": CorrelationID,
+    "**.messages.*.traits.external_docs": ExternalDocumentation,
+    "**.messages.*.traits.tags": Tag,
     "**.schemas.*": MultiFormatSchema | Schema,
     "**.operations.*": Operation,
     "**.operation_bindings.*": OperationBindingsObject,
@@ -111,6 +114,9 @@ REFERENCE_TYPE_MAPPINGS = {
     "**.bindings.*.response_topic": Schema,
     "**.bindings.*.session_expiry_interval": Schema,
     "**.bindings.*.time_to_live": Schema,
+    "**.operations.*.traits.external_docs": ExternalDocumentation,
+    "**.operations.*.traits.security": SecurityScheme,
+    "**.operations.*.traits.tags": Tag,
     "**.operations.*.traits.*.security.*": SecurityScheme,
     "**.security": SecurityScheme,
     "**.security.*": SecurityScheme,
-- 
2.43.0


From fedf08d5543e963af57b3e5ab3c6f5885cd678b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 11/17] fix: keep the processing guard out of the document
 state

Copies made by a processor no longer inherit the guard, and concurrent
assignments from other threads are still processed.
---
 asyncapi3/models/asyncapi.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index c7de24c..4320874 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -4,18 +4,12 @@ __all__ = ["AsyncAPI3"]
 
 import re
 
+from contextvars import ContextVar
 from typing import Any
 
 import yaml
 
-from pydantic import (
-    AnyUrl,
-    Field,
-    HttpUrl,
-    PrivateAttr,
-    field_validator,
-    model_validator,
-)
+from pydantic import AnyUrl, Field, HttpUrl, field_validator, model_validator
 from pydantic.json_schema import SkipJsonSchema
 
 # TODO:
@@ -59,6 +53,9 @@ from asyncapi3.models.server import Servers
 from asyncapi3.protocols import ProcessorProtocol
 from asyncapi3.validators import UnifiedReferencesValidator
 
+# Identities of the documents whose extra processors are running in this context.
+_processing: ContextVar[frozenset[int]] = ContextVar("_processing", default=frozenset())
+
 
 class AsyncAPI3(ExtendableBaseModel):
     """
@@ -156,8 +153,6 @@ class AsyncAPI3(ExtendableBaseModel):
         ),
     )
 
-    _processing: bool = PrivateAttr(default=False)
-
     @classmethod
     def model_validate_yaml(cls, yaml_data: str | bytes, **kwargs: Any) -> "AsyncAPI3":
         """
@@ -296,16 +291,17 @@ class AsyncAPI3(ExtendableBaseModel):
     @model_validator(mode="after")
     def run_extra_processors(self) -> "AsyncAPI3":
         """Run all extra processors after model validation."""
-        if self._processing:
+        active = _processing.get()
+        if id(self) in active:
             # Assignment made by a running processor, it must not start a new run.
             return self
 
-        self._processing = True
+        token = _processing.set(active | {id(self)})
         try:
             self._run_extra_converters()
             self._run_extra_validators()
         finally:
-            self._processing = False
+            _processing.reset(token)
         return self
 
     def _run_extra_converters(self) -> None:
-- 
2.43.0


From 07b08316fcacc451178bd8eb75920fe5f00d8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:29 +0000
Subject: [PATCH 12/17] fix: store items of named maps under the validated key

A bytes key was accepted by validation and then failed with KeyError.
---
 asyncapi3/models/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncapi3/models/base_models.py b/asyncapi3/models/base_models.py
index 747f18a..a4bda77 100644
--- a/asyncapi3/models/base_models.py
+++ b/asyncapi3/models/base_models.py
@@ -121,7 +121,7 @@ class PatternedRootModel(_RollbackAssignmentMixin, RootModel[dict[str, T]], Gene
 
     def __setitem__(self, key: str, value: T) -> None:
         # Items are validated the same way as any other assignment.
-        self.root[key] = type(self).model_validate({key: value}).root[key]
+        self.root.update(type(self).model_validate({key: value}).root)
 
     def __delitem__(self, key: str) -> None:
         del self.root[key]
-- 
2.43.0


From 42d59630d071a1e2b34bb670e6194cda2f947e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 13/17] fix: end the processing guard in contexts copied by a
 processor

---
 asyncapi3/models/asyncapi.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asyncapi3/models/asyncapi.py b/asyncapi3/models/asyncapi.py
index 4320874..f4b3839 100644
--- a/asyncapi3/models/asyncapi.py
+++ b/asyncapi3/models/asyncapi.py
@@ -53,8 +53,9 @@ from asyncapi3.models.server import Servers
 from asyncapi3.protocols import ProcessorProtocol
 from asyncapi3.validators import UnifiedReferencesValidator
 
-# Identities of the documents whose extra processors are running in this context.
-_processing: ContextVar[frozenset[int]] = ContextVar("_processing", default=frozenset())
+# Runs of extra processors in this context, each holding the identity of its document.
+# A run is emptied when it ends, as contexts copied by a processor may outlive it.
+_processing: ContextVar[tuple[set[int], ...]] = ContextVar("_processing", default=())
 
 
 class AsyncAPI3(ExtendableBaseModel):
@@ -292,15 +293,17 @@ class AsyncAPI3(ExtendableBaseModel):
     def run_extra_processors(self) -> "AsyncAPI3":
         """Run all extra processors after model validation."""
         active = _processing.get()
-        if id(self) in active:
+        if any(id(self) in run for run in active):
             # Assignment made by a running processor, it must not start a new run.
             return self
 
-        token = _processing.set(active | {id(self)})
+        current = {id(self)}
+        token = _processing.set((*active, current))
         try:
             self._run_extra_converters()
             self._run_extra_validators()
         finally:
+            current.clear()
             _processing.reset(token)
         return self
 
-- 
2.43.0


From 1c8d7ccbac88668fb1e90ad2fcb69b8ff1c4821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 14/17] fix: quote malformed text in key and reference error
 messages

---
 asyncapi3/models/helpers.py                    |  2 +-
 .../validators/external_docs_ref_validator.py  |  4 ++--
 asyncapi3/validators/tags_ref_validator.py     |  4 ++--
 asyncapi3/validators/utils.py                  | 18 +++++++++---------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/asyncapi3/models/helpers.py b/asyncapi3/models/helpers.py
index cb966bc..d331ecc 100644
--- a/asyncapi3/models/helpers.py
+++ b/asyncapi3/models/helpers.py
@@ -33,7 +33,7 @@ def validate_patterned_key(key: str | Any, object_name: str = "object") -> None:
     try:
         if not pattern.match(key):
             raise ValueError(
-                f"Field '{key}' does not match patterned object key pattern. "
+                f"Field {key!r} does not match patterned object key pattern. "
                 "Keys must contain letters, digits, hyphens, and underscores."
             )
     except TypeError as error:
diff --git a/asyncapi3/validators/external_docs_ref_validator.py b/asyncapi3/validators/external_docs_ref_validator.py
index 27441bc..9686bcb 100644
--- a/asyncapi3/validators/external_docs_ref_validator.py
+++ b/asyncapi3/validators/external_docs_ref_validator.py
@@ -565,7 +565,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
         if not ref_value.startswith("#/components/externalDocs/"):
             raise ValueError(
                 f"{context.capitalize()} external documentation reference "
-                f"'{ref_value}' must point to #/components/externalDocs/ "
+                f"{ref_value!r} must point to #/components/externalDocs/ "
                 "but points elsewhere."
             )
 
@@ -576,7 +576,7 @@ class ExternalDocsRefValidator(ProcessorProtocol):
             or doc_key not in spec.components.external_docs.root
         ):
             raise ValueError(
-                f"{context.capitalize()} references external documentation '{doc_key}' "
+                f"{context.capitalize()} references external documentation {doc_key!r} "
                 "but it does not exist in components/externalDocs."
             )
 
diff --git a/asyncapi3/validators/tags_ref_validator.py b/asyncapi3/validators/tags_ref_validator.py
index a934f91..e29c3f3 100644
--- a/asyncapi3/validators/tags_ref_validator.py
+++ b/asyncapi3/validators/tags_ref_validator.py
@@ -339,7 +339,7 @@ class TagsRefValidator(ProcessorProtocol):
 
         if not ref_value.startswith("#/components/tags/"):
             raise ValueError(
-                f"{context.capitalize()} tag reference '{ref_value}' must point to "
+                f"{context.capitalize()} tag reference {ref_value!r} must point to "
                 "#/components/tags/ but points elsewhere."
             )
 
@@ -350,6 +350,6 @@ class TagsRefValidator(ProcessorProtocol):
             or tag_key not in spec.components.tags.root
         ):
             raise ValueError(
-                f"{context.capitalize()} references tag '{tag_key}' but tag "
+                f"{context.capitalize()} references tag {tag_key!r} but tag "
                 f"does not exist in components/tags."
             )
diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index e8295d5..8cacb79 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -61,7 +61,7 @@ def resolve_reference(
                 path_parts=path_parts,
             )
         except AttributeError as exc:
-            raise ValueError(f"Failed to resolve reference '{ref}': {exc}") from exc
+            raise ValueError(f"Failed to resolve reference {ref!r}: {exc}") from exc
 
         if not isinstance(resolved_object, Reference):
             break
@@ -82,7 +82,7 @@ def _initialize_visited_refs(
     if visited_refs is None:
         visited_refs = set()
     if ref in visited_refs:
-        raise ValueError(f"Circular reference detected: {ref}")
+        raise ValueError(f"Circular reference detected: {ref!r}")
     visited_refs.add(ref)
     return visited_refs
 
@@ -95,10 +95,10 @@ def _is_external_reference(ref: str) -> bool:
 def _parse_reference_path(ref: str) -> list[str]:
     """Split a reference string into path segments for navigation."""
     if not ref.startswith("#"):
-        raise ValueError(f"Unsupported reference format: {ref}")
+        raise ValueError(f"Unsupported reference format: {ref!r}")
     path_parts = ref[1:].strip("/").split("/")
     if not path_parts or path_parts == [""]:
-        raise ValueError(f"Invalid reference path: {ref}")
+        raise ValueError(f"Invalid reference path: {ref!r}")
     return path_parts
 
 
@@ -149,7 +149,7 @@ def _resolve_path_part(
             full_path=full_path,
         )
     raise ValueError(
-        f"Cannot navigate to '{part}' in {full_path} (not a model or dict)"
+        f"Cannot navigate to {part!r} in {full_path!r} (not a model or dict)"
     )
 
 
@@ -165,7 +165,7 @@ def _resolve_from_root(
 ) -> tuple[Any, type]:
     """Resolve a path segment against a root mapping."""
     if part not in current_obj.root:
-        raise ValueError(f"Reference key '{part}' not found in {full_path}")
+        raise ValueError(f"Reference key {part!r} not found in {full_path!r}")
     next_obj = current_obj.root[part]
     return next_obj, type(next_obj)
 
@@ -178,10 +178,10 @@ def _resolve_from_model(
     """Resolve a path segment against a Pydantic model instance."""
     field_name = _find_model_field_name(current_obj=current_obj, part=part)
     if field_name is None:
-        raise ValueError(f"Field '{part}' not found in model at {full_path}")
+        raise ValueError(f"Field {part!r} not found in model at {full_path!r}")
     field_value = getattr(current_obj, field_name)
     if field_value is None:
-        raise ValueError(f"Reference path '{full_path}' is None")
+        raise ValueError(f"Reference path {full_path!r} is None")
     return field_value, type(field_value)
 
 
@@ -202,6 +202,6 @@ def _resolve_from_dict(
 ) -> tuple[Any, type]:
     """Resolve a path segment against a dictionary."""
     if part not in current_obj:
-        raise ValueError(f"Reference key '{part}' not found in {full_path}")
+        raise ValueError(f"Reference key {part!r} not found in {full_path!r}")
     next_obj = current_obj[part]
     return next_obj, type(next_obj)
-- 
2.43.0


From 1248559b597b1f271f1b3288e08008b8500ed2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 15/17] fix: look for channel address expressions in linear
 time

---
 asyncapi3/models/channel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncapi3/models/channel.py b/asyncapi3/models/channel.py
index d9258db..2561169 100644
--- a/asyncapi3/models/channel.py
+++ b/asyncapi3/models/channel.py
@@ -187,9 +187,11 @@ class Channel(ExtendableBaseModel):
                 "parameters must not be provided when address is null or absent"
             )
 
-        # Check if address contains channel address expressions (curly braces)
-        expression_pattern = re.compile(r"\{[^}]+\}")
-        if not expression_pattern.search(self.address):
+        # Check if address contains channel address expressions (curly braces).
+        # The first opening is enough: searching for the whole expression from every
+        # opening takes quadratic time when none of them is closed.
+        opening = re.search(r"\{[^}]", self.address)
+        if opening is None or "}" not in self.address[opening.end() :]:
             raise ValueError(
                 "parameters must not be provided when address does not contain "
                 "Channel Address Expressions"
-- 
2.43.0


From 2ae356c2b288cbd7632abaa06ce4b545ffc5c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 16/17] fix: do not lose an explicit null where the default is
 another value

---
 asyncapi3/models/bindings/anypointmq.py | 3 +--
 asyncapi3/models/bindings/pulsar.py     | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/asyncapi3/models/bindings/anypointmq.py b/asyncapi3/models/bindings/anypointmq.py
index d0ea871..247105d 100644
--- a/asyncapi3/models/bindings/anypointmq.py
+++ b/asyncapi3/models/bindings/anypointmq.py
@@ -43,9 +43,8 @@ class AnypointMQChannelBindings(NonExtendableBaseModel):
             "MQ. Optional, defaults to the channel name."
         ),
     )
-    destination_type: Literal["exchange", "queue", "fifo-queue"] | None = Field(
+    destination_type: Literal["exchange", "queue", "fifo-queue"] = Field(
         default="queue",
-        exclude_if=is_null,
         alias="destinationType",
         description=(
             "The type of destination, which MUST be either exchange or queue or "
diff --git a/asyncapi3/models/bindings/pulsar.py b/asyncapi3/models/bindings/pulsar.py
index 206e15c..ad0c701 100644
--- a/asyncapi3/models/bindings/pulsar.py
+++ b/asyncapi3/models/bindings/pulsar.py
@@ -41,14 +41,12 @@ class PulsarRetention(NonExtendableBaseModel):
     The Retention Definition Object is used to describe the Pulsar Retention policy.
     """
 
-    time: int | None = Field(
+    time: int = Field(
         default=0,
-        exclude_if=is_null,
         description="Time given in Minutes.",
     )
-    size: int | None = Field(
+    size: int = Field(
         default=0,
-        exclude_if=is_null,
         description="Size given in MegaBytes.",
     )
 
-- 
2.43.0


From acbf3bd3c49cc3733ba1c05f40a192cc645ac321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 17/17] fix: resolve pointers through schemas with an extra
 member named root

_has_root_mapping took any model with a dict attribute named root for a map model.
Schemas accept arbitrary members, so a schema with a member named root could not be
navigated into: #/components/schemas/S/externalDocs failed although it exists.
---
 asyncapi3/validators/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asyncapi3/validators/utils.py b/asyncapi3/validators/utils.py
index 8cacb79..e144c49 100644
--- a/asyncapi3/validators/utils.py
+++ b/asyncapi3/validators/utils.py
@@ -8,7 +8,7 @@ import logging
 
 from typing import TYPE_CHECKING, Any, NamedTuple
 
-from pydantic import BaseModel
+from pydantic import BaseModel, RootModel
 
 from asyncapi3.models.base import Reference
 
@@ -155,6 +155,9 @@ def _resolve_path_part(
 
 def _has_root_mapping(obj: Any) -> bool:
     """Return True when object has a root dict for navigation."""
+    if isinstance(obj, BaseModel) and not isinstance(obj, RootModel):
+        # The document may hold an extra member named "root", e.g. in a schema.
+        return False
     return hasattr(obj, "root") and isinstance(obj.root, dict)
 
 
-- 
2.43.0

