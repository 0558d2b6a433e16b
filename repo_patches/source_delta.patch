From 05358f16684be96f271885e6d72c5c84a4ebe72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 01/42] fix: reject a single trailing byte in exact
 Struct.from_bytes

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 64bdb03..fbf7be0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -551,9 +551,9 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data) - 1):
+        if exact and (here < len(data)):
             raise errors.ExtraneousDataError(
-                f"Read {here + 1} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {len(data)} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0


From 782506ed00ffd57991981c87bde1b2a3ccb791eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 02/42] fix: dump the assigned values of fields marked
 discard=True

---
 binobj/structures.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index fbf7be0..d02791e 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -277,31 +277,45 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 
 @overload
-def recursive_to_dicts(item: Struct) -> dict[str, Any]: ...
+def recursive_to_dicts(
+    item: Struct, keep_discardable: bool = False
+) -> dict[str, Any]: ...
 
 
 @overload
-def recursive_to_dicts(item: Mapping[K, V]) -> dict[K, V]: ...
+def recursive_to_dicts(
+    item: Mapping[K, V], keep_discardable: bool = False
+) -> dict[K, V]: ...
 
 
 @overload
-def recursive_to_dicts(item: Sequence[T]) -> list[T]: ...
+def recursive_to_dicts(
+    item: Sequence[T], keep_discardable: bool = False
+) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object) -> Any:
+def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
 
     :param item:
         Anything. If it's an unsupported type it'll get returned as is.
+    :param bool keep_discardable:
+        If True, don't exclude fields marked with ``discard=True`` from the dictionaries
+        that nested structs are converted to.
     """
     if isinstance(item, Struct):
-        return item.to_dict()
+        return item.to_dict(keep_discardable)
     if isinstance(item, Mapping):
-        return {recursive_to_dicts(k): recursive_to_dicts(v) for k, v in item.items()}
+        return {
+            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
+                v, keep_discardable
+            )
+            for k, v in item.items()
+        }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v) for v in item]
+        return [recursive_to_dicts(v, keep_discardable) for v in item]
     return item
 
 
@@ -376,8 +390,9 @@ class Struct(HasStruct):
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
-        # fields expecting a dictionary.
-        all_fields = self.to_dict()
+        # fields expecting a dictionary. Discardable fields must be kept because they're
+        # only dropped when *loading*; they take up space in the serialized data.
+        all_fields = self.to_dict(keep_discardable=True)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -439,7 +454,7 @@ class Struct(HasStruct):
                 if field.discard:
                     del dct[field.name]
 
-        return recursive_to_dicts(dct)
+        return recursive_to_dicts(dct, keep_discardable)
 
     def _to_dict_whatever_possible(self) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
-- 
2.43.0


From 2aa3347de3718676ad30dd31d16df7497038ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 03/42] fix: Struct.to_dict() crashed after loading a discarded
 field without a default

---
 binobj/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index d02791e..1149c1c 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -445,14 +445,15 @@ class Struct(HasStruct):
             {
                 field.name: field.compute_value_for_dump(dct)
                 for field in self.__binobj_struct__.components.values()
-                if field.name not in dct
+                if field.name not in dct and (keep_discardable or not field.discard)
             }
         )
 
         if not keep_discardable:
             for field in self.__binobj_struct__.components.values():
                 if field.discard:
-                    del dct[field.name]
+                    # There might not be a value, e.g. if it was discarded on loading.
+                    dct.pop(field.name, None)
 
         return recursive_to_dicts(dct, keep_discardable)
 
-- 
2.43.0


From 44d76e13759c0338eed520e3ea8442e5b9eb62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:18 +0000
Subject: [PATCH 04/42] fix: make the struct mapping proxies honour the Mapping
 contract

---
 binobj/structures.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 1149c1c..18174dc 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -845,7 +845,7 @@ def is_struct(thing: object) -> TypeGuard[HasStruct]:
     return hasattr(thing, STRUCT_META_NAME)
 
 
-@dc.dataclass
+@dc.dataclass(eq=False)
 class StructMappingProxy(Mapping[str, Any]):
     """An immutable wrapper that makes a :class:`Struct` work like a :class:`dict`.
 
@@ -858,14 +858,25 @@ class StructMappingProxy(Mapping[str, Any]):
     def __getitem__(self, field: str) -> Any:
         return self.struct[field]
 
+    def __contains__(self, field: object) -> bool:
+        return any(name == field for name in self.struct)
+
     def __iter__(self) -> Iterator[str]:
         yield from iter(self.struct)
 
     def __len__(self) -> int:
-        return len(self.struct)
+        # This must be the number of keys in the mapping. The length of the struct is
+        # something completely different: its size in bytes.
+        return sum(1 for _ in self.struct)
 
+    def get(self, field: str, default: Any = None) -> Any:
+        try:
+            return self.struct[field]
+        except (KeyError, errors.MissingRequiredValueError):
+            return default
 
-@dc.dataclass
+
+@dc.dataclass(eq=False)
 class MutableStructMappingProxy(StructMappingProxy, MutableMapping[str, Any]):
     """A mutable wrapper that makes a :class:`Struct` work like a :class:`dict`.
 
@@ -877,3 +888,10 @@ class MutableStructMappingProxy(StructMappingProxy, MutableMapping[str, Any]):
 
     def __delitem__(self, key: str) -> None:
         del self.struct[key]
+
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        try:
+            return self.struct[key]
+        except errors.MissingRequiredValueError:
+            self.struct[key] = default
+            return default
-- 
2.43.0


From df674a296298313821d07e29d69c8df4fa2b8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 05/42] fix: use the value factory of a field when dumping a
 struct

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 07f7fc7..236f7ca 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -440,7 +440,7 @@ class Field(Generic[T]):
         if self.name in all_values:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
-        elif self._default is not UNDEFINED:
+        elif self._default is not UNDEFINED or self.factory is not None:
             # The value is *not* set in the struct. Either this field must have a
             # default value, or it must be a computed field. Check for default values
             # here.
-- 
2.43.0


From df774b4f90c02ed2f75b21b0077338ce94c6707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 06/42] fix: allow const on fields whose size can't be derived
 from a value

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 236f7ca..309e101 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -561,7 +561,7 @@ class Field(Generic[T]):
         """
         # Since this is called in the constructor we need to check to see if _size has
         # been assigned to yet.
-        if self.has_fixed_size and hasattr(self, "_size"):
+        if hasattr(self, "_size") and self.has_fixed_size:
             return typing.cast(int, self._size)
         return None
 
-- 
2.43.0


From ed432c3012c4fd88de41e055c7a941170aeec01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 07/42] fix: give presence conditions the caller's context
 throughout a dump

---
 binobj/structures.py | 81 ++++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 25 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 18174dc..fdf2b15 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -278,23 +278,25 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
 
 @overload
 def recursive_to_dicts(
-    item: Struct, keep_discardable: bool = False
+    item: Struct, keep_discardable: bool = False, context: object = None
 ) -> dict[str, Any]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Mapping[K, V], keep_discardable: bool = False
+    item: Mapping[K, V], keep_discardable: bool = False, context: object = None
 ) -> dict[K, V]: ...
 
 
 @overload
 def recursive_to_dicts(
-    item: Sequence[T], keep_discardable: bool = False
+    item: Sequence[T], keep_discardable: bool = False, context: object = None
 ) -> list[T]: ...
 
 
-def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
+def recursive_to_dicts(
+    item: object, keep_discardable: bool = False, context: object = None
+) -> Any:
     """Ensure that any nested structures are also converted to dictionaries.
 
     This is used when a :class:`Struct` is converted to a dictionary.
@@ -304,18 +306,20 @@ def recursive_to_dicts(item: object, keep_discardable: bool = False) -> Any:
     :param bool keep_discardable:
         If True, don't exclude fields marked with ``discard=True`` from the dictionaries
         that nested structs are converted to.
+    :param context:
+        The context object to pass to the fields of nested structs.
     """
     if isinstance(item, Struct):
-        return item.to_dict(keep_discardable)
+        return item.to_dict(keep_discardable, context)
     if isinstance(item, Mapping):
         return {
-            recursive_to_dicts(k, keep_discardable): recursive_to_dicts(
-                v, keep_discardable
+            recursive_to_dicts(k, keep_discardable, context): recursive_to_dicts(
+                v, keep_discardable, context
             )
             for k, v in item.items()
         }
     if isinstance(item, Sequence) and not isinstance(item, (str, bytes, bytearray)):
-        return [recursive_to_dicts(v, keep_discardable) for v in item]
+        return [recursive_to_dicts(v, keep_discardable, context) for v in item]
     return item
 
 
@@ -353,16 +357,22 @@ class Struct(HasStruct):
 
         self.__values__ = values
 
-    def validate_contents(self) -> None:
+    def validate_contents(self, context: object = None) -> None:
         """Validate the stored values in this struct.
 
+        :param context:
+            The context object passed to the method loading or dumping this struct, if
+            any. It's needed for determining the values of fields that aren't set.
+
         :raise ~binobj.errors.ValidationError: Validation failed.
 
         .. versionadded:: 0.4.0
         """
+        values = _CallbackValues(self, context)
+
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
-            value = self[f_name]
+            value = values[f_name]
 
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
@@ -386,13 +396,13 @@ class Struct(HasStruct):
             Additional data to pass to this method. Subclasses must ignore anything they
             don't recognize.
         """
-        self.validate_contents()
+        self.validate_contents(context)
 
         # We can't pass `self` to all_fields because Structs can't be used with
         # dictionary expansion (e.g. **kwargs). It'd be a nasty surprise for
         # fields expecting a dictionary. Discardable fields must be kept because they're
         # only dropped when *loading*; they take up space in the serialized data.
-        all_fields = self.to_dict(keep_discardable=True)
+        all_fields = self.to_dict(keep_discardable=True, context=context)
 
         for field in self.__binobj_struct__.components.values():
             value = field.compute_value_for_dump(all_fields, context)
@@ -413,7 +423,9 @@ class Struct(HasStruct):
         self.to_stream(stream, context)
         return stream.getvalue()
 
-    def to_dict(self, keep_discardable: bool = False) -> dict[str, Any]:
+    def to_dict(
+        self, keep_discardable: bool = False, context: object = None
+    ) -> dict[str, Any]:
         """Convert this struct into an ordered dictionary.
 
         The primary use for this method is converting a loaded :class:`Struct` into
@@ -422,6 +434,9 @@ class Struct(HasStruct):
 
         :param bool keep_discardable:
             If True, don't exclude fields marked with ``discard=True`` from the result.
+        :param context:
+            Any object containing extra information to pass to the fields' ``present``
+            callables.
 
         :rtype: Dict[str, Any]
 
@@ -440,10 +455,10 @@ class Struct(HasStruct):
         .. versionchanged:: 0.6.1
             The ``keep_discardable`` argument was added.
         """
-        dct = self._to_dict_whatever_possible()
+        dct = self._to_dict_whatever_possible(context)
         dct.update(
             {
-                field.name: field.compute_value_for_dump(dct)
+                field.name: field.compute_value_for_dump(dct, context)
                 for field in self.__binobj_struct__.components.values()
                 if field.name not in dct and (keep_discardable or not field.discard)
             }
@@ -455,9 +470,9 @@ class Struct(HasStruct):
                     # There might not be a value, e.g. if it was discarded on loading.
                     dct.pop(field.name, None)
 
-        return recursive_to_dicts(dct, keep_discardable)
+        return recursive_to_dicts(dct, keep_discardable, context)
 
-    def _to_dict_whatever_possible(self) -> dict[str, Any]:
+    def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
         We use this to get values for all computed fields as well as any fields that
@@ -465,13 +480,12 @@ class Struct(HasStruct):
         fields). This allows us to resolve forward references.
         """
         dct = {}
+        values = _CallbackValues(self, context)
 
         # Try dumping all the fields we can first.
         for field in self.__binobj_struct__.components.values():
             try:
-                dct[field.name] = field.compute_value_for_dump(
-                    typing.cast(StrDict, self)
-                )
+                dct[field.name] = field.compute_value_for_dump(values, context)
             except (errors.SerializationError, errors.UndefinedSizeError):  # noqa: PERF203
                 pass
             except errors.Error as err:  # pragma: nocover
@@ -485,7 +499,7 @@ class Struct(HasStruct):
                     stacklevel=2,
                 )
 
-        return dict(collections.ChainMap(dct, MutableStructMappingProxy(self)))
+        return dict(collections.ChainMap(dct, values))
 
     @classmethod
     def from_stream(
@@ -524,7 +538,7 @@ class Struct(HasStruct):
             results.setdefault(name, field.from_stream(stream, context, results))
 
         instance = cls(**results)
-        instance.validate_contents()
+        instance.validate_contents(context)
 
         for field in cls.__binobj_struct__.components.values():
             if field.discard:
@@ -871,7 +885,7 @@ class StructMappingProxy(Mapping[str, Any]):
 
     def get(self, field: str, default: Any = None) -> Any:
         try:
-            return self.struct[field]
+            return self[field]
         except (KeyError, errors.MissingRequiredValueError):
             return default
 
@@ -891,7 +905,24 @@ class MutableStructMappingProxy(StructMappingProxy, MutableMapping[str, Any]):
 
     def setdefault(self, key: str, default: Any = None) -> Any:
         try:
-            return self.struct[key]
+            return self[key]
         except errors.MissingRequiredValueError:
-            self.struct[key] = default
+            self[key] = default
             return default
+
+
+@dc.dataclass(eq=False)
+class _CallbackValues(MutableStructMappingProxy):
+    """The values of a struct, as they're presented to a field's callbacks.
+
+    Unlike with the public proxies, the values of fields that aren't set are determined
+    using the context object given to the operation in progress.
+    """
+
+    context: object = None
+
+    def __getitem__(self, field: str) -> Any:
+        components = self.struct.__binobj_struct__.components
+        if field in self.struct.__values__ or field not in components:
+            return self.struct[field]
+        return components[field].compute_value_for_dump(self, self.context)
-- 
2.43.0


From 077b7b2f90045696a0d1a82095605920a697d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 08/42] fix: pass a mapping, not the bare struct, to compute
 and presence callbacks

---
 binobj/fields/base.py | 2 +-
 binobj/structures.py  | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 309e101..4182f75 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -1017,7 +1017,7 @@ class Field(Generic[T]):
             return self
         if self.name in instance.__values__:
             return instance.__values__[self.name]
-        return self.compute_value_for_dump(instance)
+        return self.compute_value_for_dump(instance._callback_values())  # noqa: SLF001
 
     def __set__(self, instance: Struct, value: Optional[T]) -> None:
         if self._compute_fn or self.const is not UNDEFINED:
diff --git a/binobj/structures.py b/binobj/structures.py
index fdf2b15..ef5a0cc 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -368,7 +368,7 @@ class Struct(HasStruct):
 
         .. versionadded:: 0.4.0
         """
-        values = _CallbackValues(self, context)
+        values = self._callback_values(context)
 
         for f_name, validators in self.__binobj_struct__.field_validators.items():
             f_obj = self.__binobj_struct__.components[f_name]
@@ -472,6 +472,10 @@ class Struct(HasStruct):
 
         return recursive_to_dicts(dct, keep_discardable, context)
 
+    def _callback_values(self, context: object = None) -> Mapping[str, Any]:
+        """Wrap this struct in the mapping that callbacks get for its current values."""
+        return _CallbackValues(self, context)
+
     def _to_dict_whatever_possible(self, context: object = None) -> dict[str, Any]:
         """Convert this struct to a dict, ignoring serialization-related errors.
 
@@ -480,7 +484,7 @@ class Struct(HasStruct):
         fields). This allows us to resolve forward references.
         """
         dct = {}
-        values = _CallbackValues(self, context)
+        values = self._callback_values(context)
 
         # Try dumping all the fields we can first.
         for field in self.__binobj_struct__.components.values():
-- 
2.43.0


From 4e2b4cd61305180051ab859756501f55a6175976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 09/42] fix: don't run validators on the NOT_PRESENT
 placeholder of absent fields

---
 binobj/structures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index ef5a0cc..37be813 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -374,6 +374,10 @@ class Struct(HasStruct):
             f_obj = self.__binobj_struct__.components[f_name]
             value = values[f_name]
 
+            if value is fields.NOT_PRESENT:
+                # There's no value to validate.
+                continue
+
             # First, invoke the validators defined on the field object.
             for instance_validator in f_obj.validators:
                 instance_validator(value)
-- 
2.43.0


From eca4a4cced92cd91aa2df9957c70beccb5948020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 10/42] fix: StringZ must read its own bytes only, all of them,
 and report truncation as EOF

---
 binobj/fields/stringlike.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 36ef36c..43e76a7 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -159,22 +159,30 @@ class StringZ(String):
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
     ) -> str:
-        max_bytes: Optional[int]
-        try:
-            max_bytes = self.get_expected_size(loaded_fields)
-        except errors.UndefinedSizeError:
-            max_bytes = None
-
-        iterator = helpers.iter_bytes(stream, max_bytes)
-        reader = codecs.iterdecode(iterator, self.encoding)
+        if self.size is not None:
+            # The string is padded out to a given size, so we need to consume all of it
+            # even if the terminator isn't at the end.
+            source: BinaryIO = io.BytesIO(self._read_exact_size(stream, loaded_fields))
+        else:
+            source = stream
+
+        offset = source.tell()
+        n_read = 0
+        decoder = codecs.getincrementaldecoder(self.encoding)()
         result = io.StringIO()
 
-        for char in reader:
-            if char == "\0":
-                return result.getvalue()
-            result.write(char)
+        for byte in helpers.iter_bytes(source):
+            n_read += 1
+            for char in decoder.decode(byte):
+                if char == "\0":
+                    return result.getvalue()
+                result.write(char)
 
         # If we get out here then we hit EOF before getting to the null terminator.
+        if self.size is None:
+            raise errors.UnexpectedEOFError(
+                field=self, size=n_read + 1, offset=offset
+            )
         raise errors.DeserializationError(
             "Hit EOF before finding the trailing null.", field=self
         )
-- 
2.43.0


From 96e4b4360f409603e8c3e6b5e7a17bb7b7694a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 11/42] fix: report unencodable text as a serialization error

---
 binobj/fields/stringlike.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 43e76a7..1c90f4a 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -125,7 +125,7 @@ class String(Field[str]):
         :return: ``string`` encoded as ``size`` bytes.
         :rtype: bytes
         """
-        to_dump = string.encode(self.encoding)
+        to_dump = self._encode(string)
         write_size = self.get_expected_size(all_fields)
 
         size_diff = len(to_dump) - write_size
@@ -140,6 +140,15 @@ class String(Field[str]):
 
         return to_dump
 
+    def _encode(self, string: str) -> bytes:
+        """Encode a string, or crash if it has characters that can't be represented."""
+        try:
+            return string.encode(self.encoding)
+        except UnicodeEncodeError as err:
+            raise errors.UnserializableValueError(
+                field=self, value=string, reason=str(err)
+            ) from err
+
     def _add_padding(self, serialized: bytes, to_size: int) -> bytes:
         if self.pad_byte is None:
             raise errors.ValueSizeError(field=self, value=serialized)
@@ -191,7 +200,7 @@ class StringZ(String):
     def _do_dump(
         self, stream: BinaryIO, data: str, context: object, all_fields: StrDict
     ) -> None:
-        stream.write((data + "\0").encode(self.encoding))
+        stream.write(self._encode(data + "\0"))
 
     def _size_for_value(self, value: str) -> int:
         return len((value + "\0").encode(self.encoding))
-- 
2.43.0


From faa36be42060311d0407608607f1e3f068b64fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 12/42] fix: refuse to dump null-terminated strings with
 embedded nulls

---
 binobj/fields/stringlike.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index 1c90f4a..a19dc42 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -200,6 +200,13 @@ class StringZ(String):
     def _do_dump(
         self, stream: BinaryIO, data: str, context: object, all_fields: StrDict
     ) -> None:
+        if "\0" in data:
+            # This would be mistaken for the terminator when loading.
+            raise errors.UnserializableValueError(
+                field=self,
+                value=data,
+                reason="A null-terminated string can't contain null characters.",
+            )
         stream.write(self._encode(data + "\0"))
 
     def _size_for_value(self, value: str) -> int:
-- 
2.43.0


From bcd8000354d028ac3fd61e86fb68156f2be3701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:54 +0000
Subject: [PATCH 13/42] fix: reject negative sizes taken from other fields when
 loading

---
 binobj/fields/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 4182f75..b4f36a2 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -988,6 +988,11 @@ class Field(Generic[T]):
 
         offset = stream.tell()
         n_bytes = self.get_expected_size(loaded_fields)
+        if n_bytes < 0:
+            # Don't pass this on to read() since it'd read everything left in the stream.
+            raise errors.DeserializationError(
+                f"Invalid size for {self}: {n_bytes}", field=self, offset=offset
+            )
 
         data_read = stream.read(n_bytes)
         if len(data_read) < n_bytes:
-- 
2.43.0


From 75810d65b34dc70c6bb77d787d6631dc34c95893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 14/42] fix: report floats too large for their format as a
 serialization error

---
 binobj/fields/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 45a4eb5..4af0c30 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -110,7 +110,7 @@ class Float(Field[float]):
     ) -> None:
         try:
             serialized = struct.pack(self.format_string, data)
-        except struct.error as exc:
+        except (struct.error, OverflowError) as exc:
             raise errors.SerializationError(message=str(exc), field=self) from exc
         stream.write(serialized)
 
-- 
2.43.0


From 8c28a1bc4d050b6685d88a8f152e371dc70a9f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 15/42] fix: convert timestamps with integer arithmetic so they
 don't lose precision

---
 binobj/fields/numeric.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 4af0c30..2fe23d9 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -53,6 +53,9 @@ __all__ = [
 FloatFormat = Literal["e", "f", "d"]
 
 
+_UNIX_EPOCH: Final = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
+
+
 class Float(Field[float]):
     """A floating-point number in IEEE-754:2008 interchange format.
 
@@ -394,7 +397,12 @@ class Timestamp(Field[datetime.datetime]):
     .. seealso:: :class:`.Timestamp32`, :class:`.Timestamp64`
     """
 
-    _RESOLUTION_UNITS: Final = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
+    _RESOLUTION_UNITS: Final = {
+        "s": 1,
+        "ms": 1_000,
+        "us": 1_000_000,
+        "ns": 1_000_000_000,
+    }
 
     def __init__(
         self,
@@ -428,10 +436,13 @@ class Timestamp(Field[datetime.datetime]):
         value = helpers.read_int(
             stream, self.get_expected_size(loaded_fields), self.signed, self.endian
         )
-        if not self.tz_aware:
-            return datetime.datetime.fromtimestamp(value / self._units)
-        return datetime.datetime.fromtimestamp(
-            value / self._units, datetime.timezone.utc
+        # Stick to integers. A float can't represent all timestamps exactly.
+        seconds, fraction = divmod(value, self._units)
+        microsecond = fraction * 1_000_000 // self._units
+
+        time_zone = datetime.timezone.utc if self.tz_aware else None
+        return datetime.datetime.fromtimestamp(seconds, time_zone).replace(
+            microsecond=microsecond
         )
 
     @override
@@ -457,7 +468,19 @@ class Timestamp(Field[datetime.datetime]):
                 stacklevel=2,
             )
 
-        timestamp = int(data.timestamp() * self._units)
+        # Stick to integers. A float can't represent all timestamps exactly. Fractions
+        # of the resolution are truncated towards the epoch.
+        if data.tzinfo is None:
+            seconds = int(data.replace(microsecond=0).timestamp())
+            microseconds = seconds * 1_000_000 + data.microsecond
+        else:
+            microseconds = (data - _UNIX_EPOCH) // datetime.timedelta(microseconds=1)
+
+        if microseconds >= 0:
+            timestamp = microseconds * self._units // 1_000_000
+        else:
+            timestamp = -(-microseconds * self._units // 1_000_000)
+
         try:
             helpers.write_int(
                 stream,
-- 
2.43.0


From 15c6610de729916186679328960f539efb70d7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 16/42] fix: run a union alternative's own checks when loading,
 not only when dumping

---
 binobj/fields/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 61954ee..7b3b290 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -492,7 +492,7 @@ class Union(Field[Any]):
     ) -> Any:
         loader = self.load_decider(stream, self.choices, context, loaded_fields)
         if isinstance(loader, Field):
-            return loader._do_load(stream, context, loaded_fields)  # noqa: SLF001
+            return loader.from_stream(stream, context, loaded_fields)
         if isinstance(loader, type) and issubclass(loader, Struct):
             return loader.from_stream(stream, context)
         raise TypeError(
-- 
2.43.0


From 85067613f78c72f7e0ce936b316b4aa9e160692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 17/42] fix: subclassing a struct must not rebind the parent's
 fields to the subclass

---
 binobj/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 37be813..0b0888b 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -846,9 +846,10 @@ class Struct(HasStruct):
         setattr(cls, STRUCT_META_NAME, meta)
 
         # Set __objclass__ on all fields to aid type introspection. The `inspect` module
-        # uses this as an aid.
+        # uses this as an aid. Fields that are inherited still belong to the parent.
         for field in meta.components.values():
-            field.__objclass__ = cls
+            if field.name in vars(cls):
+                field.__objclass__ = cls
 
         super().__init_subclass__()
 
-- 
2.43.0


From 4ab144ed57f624e7b13ef2290f8bd5194599f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 18/42] fix: support inheritance between structs declared with
 annotations

---
 binobj/pep526.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 48b76f5..6a92f5e 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -221,12 +221,20 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
     if meta.num_own_fields > 0:
         raise errors.MixedDeclarationsError(struct=class_object)
 
-    field_index = 0
+    # The fields declared in this class come after everything that's inherited.
+    field_index = len(meta.components)
     n_fields_found = 0
-    byte_offset = meta.size_bytes
+    byte_offset = meta.get_size()
+    inherited_names = set(meta.components).difference(
+        vars(class_object).get("__annotations__", {})
+    )
     all_annotations = typing.get_type_hints(class_object, include_extras=True)
 
     for name, raw_annotation in all_annotations.items():
+        if name in inherited_names:
+            # The annotation is from the parent struct, not this one.
+            continue
+
         flattened_annotations = flatten_annotations(raw_annotation)
 
         info_list = [
-- 
2.43.0


From c05cbeb9f8f1196a75c51ce4a89370b2052ff016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 19/42] fix: support field validator methods in structs
 declared with annotations

---
 binobj/pep526.py     | 6 ++++++
 binobj/structures.py | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 6a92f5e..0b2b062 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -44,6 +44,7 @@ from typing import Union
 
 from binobj import errors
 from binobj import fields
+from binobj.decorators import ValidatorMethodWrapper
 from binobj.structures import Struct
 
 
@@ -271,6 +272,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             byte_offset = None
 
         meta.components[name] = field_instance
+        meta.field_validators[name] = [
+            item
+            for item in vars(class_object).values()
+            if isinstance(item, ValidatorMethodWrapper) and name in item.field_names
+        ]
         field_index += 1
         n_fields_found += 1
 
diff --git a/binobj/structures.py b/binobj/structures.py
index 0b0888b..0ff1078 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -267,8 +267,14 @@ def bind_validators_to_struct(namespace: StrDict, metadata: StructMetadata) -> N
             continue
 
         if item.field_names:
-            # Attach this validator to each named field.
+            # Attach this validator to each named field. Fields declared using PEP 526
+            # annotations don't exist yet; the `dataclass` decorator takes care of them.
             for field_name in item.field_names:
+                if (
+                    field_name not in metadata.field_validators
+                    and field_name in namespace.get("__annotations__", {})
+                ):
+                    continue
                 metadata.field_validators[field_name].append(item)
         else:
             # Validator doesn't define any fields, must be a validator for the entire
-- 
2.43.0


From d30509ce374b20f0454d6ac0b2ab05b34899d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 20/42] fix: variable-length and conditional fields don't have
 a fixed size or offset

---
 binobj/fields/base.py | 12 +++++++++++-
 binobj/pep526.py      |  6 +++++-
 binobj/structures.py  | 12 ++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index b4f36a2..78c1059 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -71,6 +71,11 @@ NOT_PRESENT = _NotPresent.token
 T = TypeVar("T")
 
 
+def _always_present(*_args: object) -> bool:
+    """The default ``present`` callable."""
+    return True
+
+
 class Field(Generic[T]):
     r"""The base class for all struct fields.
 
@@ -275,7 +280,7 @@ class Field(Generic[T]):
         null_value: Union[bytes, _Default, _Undefined, T] = UNDEFINED,
         size: Union[int, str, Field[int], None] = None,
         validate: Union[FieldValidator, Iterable[FieldValidator]] = (),
-        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = (lambda *_: True),
+        present: Callable[[StrDict, Any, Optional[BinaryIO]], bool] = _always_present,
         not_present_value: Union[T, None, _NotPresent] = NOT_PRESENT,
     ):
         self.const = const
@@ -338,6 +343,11 @@ class Field(Generic[T]):
         """
         return isinstance(self.size, int)
 
+    @property
+    def is_conditional(self) -> bool:
+        """Might this field be absent, i.e. was a ``present`` callable given for it?"""
+        return self.present is not _always_present
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/pep526.py b/binobj/pep526.py
index 0b2b062..a2ef1b6 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -266,7 +266,11 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
             raise errors.FieldRedefinedError(struct=class_object.__name__, field=name)
 
         field_instance.bind_to_container(meta, name, field_index, byte_offset)
-        if byte_offset is not None and field_instance.has_fixed_size:
+        if (
+            byte_offset is not None
+            and field_instance.has_fixed_size
+            and not field_instance.is_conditional
+        ):
             byte_offset += typing.cast(int, field_instance.size)
         else:
             byte_offset = None
diff --git a/binobj/structures.py b/binobj/structures.py
index 0ff1078..775b335 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -191,10 +191,14 @@ class StructMetadata:
 
         .. versionadded:: 0.12.0
         """
+        field_objects = self.components.values()
         if field_values is None:
+            # We're looking for the size of every possible instance. Default values say
+            # nothing about that, and fields that might be absent don't have one.
+            if any(f.is_conditional or not f.has_fixed_size for f in field_objects):
+                return None
             field_values = {}
 
-        field_objects = self.components.values()
         try:
             return sum(f.get_expected_size(field_values) for f in field_objects)
         except (errors.UndefinedSizeError, errors.MissingRequiredValueError):
@@ -245,7 +249,11 @@ def collect_assigned_fields(
             raise errors.FieldRedefinedError(struct=class_metadata.name, field=item)
 
         item.bind_to_container(class_metadata, item_name, field_index, byte_offset)
-        if byte_offset is not None and item.has_fixed_size:
+        if (
+            byte_offset is not None
+            and item.has_fixed_size
+            and not item.is_conditional
+        ):
             byte_offset += typing.cast(int, item.size)
         else:
             byte_offset = None
-- 
2.43.0


From 1300d8f8e83a728cda024c0fd5996c258b95b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 21/42] fix: give get_field and partial_load the values of all
 preceding fields

---
 binobj/fields/base.py       |  8 ++++++++
 binobj/fields/containers.py | 16 ++++++++++++++++
 binobj/structures.py        | 32 ++++++++++++++++++++++++--------
 3 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 78c1059..c647c40 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -348,6 +348,14 @@ class Field(Generic[T]):
         """Might this field be absent, i.e. was a ``present`` callable given for it?"""
         return self.present is not _always_present
 
+    @property
+    def is_self_contained(self) -> bool:
+        """Can this be loaded without knowing the values of any other fields?
+
+        Fields that need the values of fields loaded before them must override this.
+        """
+        return not self.is_conditional and not isinstance(self.size, (str, Field))
+
     def bind_to_container(
         self,
         struct_info: StructMetadata,
diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index 7b3b290..fdee0f0 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -117,6 +117,16 @@ class Array(Field[list[Optional[T]]]):
         if isinstance(self.count, int) and component.has_fixed_size:
             self._size = self.count * typing.cast(int, component.size)
 
+    @property
+    @override
+    def is_self_contained(self) -> bool:
+        return (
+            super().is_self_contained
+            and not isinstance(self.count, (str, Field))
+            and self.halt_check is Array.should_halt
+            and self.component.is_self_contained
+        )
+
     def get_final_element_count(self, field_values: StrDict) -> Optional[int]:
         """Calculate the number of elements in the array based on other fields' values.
 
@@ -467,6 +477,12 @@ class Union(Field[Any]):
         self.load_decider = load_decider
         self.dump_decider = dump_decider
 
+    @property
+    @override
+    def is_self_contained(self) -> bool:
+        # The decider can look at all fields loaded before this one.
+        return False
+
     @override
     def _do_dump(
         self, stream: BinaryIO, data: Any, context: object, all_fields: StrDict
diff --git a/binobj/structures.py b/binobj/structures.py
index 775b335..1774aa0 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -649,6 +649,23 @@ class Struct(HasStruct):
                 f"{cls.__name__} doesn't have a field named {last_field!r}."
             )
 
+        result = cls._load_fields(stream, last_field, context)
+
+        for field in cls.__binobj_struct__.components.values():
+            if field.discard:
+                result.pop(field.name, None)
+
+        return cls(**result)
+
+    @classmethod
+    def _load_fields(
+        cls, stream: BinaryIO, last_field: Optional[str], context: object
+    ) -> MutableStrDict:
+        """Load the values of all fields up to EOF or the named field.
+
+        This is the guts of :meth:`partial_load`, except that it keeps discardable
+        fields. They can be needed for loading the fields coming after them.
+        """
         result: MutableStrDict = {}
 
         for field in cls.__binobj_struct__.components.values():
@@ -667,13 +684,11 @@ class Struct(HasStruct):
                 stream.seek(offset)
                 break
 
-            if not field.discard:
-                result[field.name] = value
-
+            result[field.name] = value
             if field.name == last_field:
                 break
 
-        return cls(**result)
+        return result
 
     @classmethod
     def get_field(cls, stream: BinaryIO, name: str, context: object = None) -> Any:
@@ -712,8 +727,8 @@ class Struct(HasStruct):
         original_offset = stream.tell()
 
         # If the field is at a fixed offset from the beginning of the struct, then we
-        # can read and return it directly.
-        if field.offset is not None:
+        # can read and return it directly, unless its value depends on other fields.
+        if field.offset is not None and field.is_self_contained:
             try:
                 stream.seek(original_offset + field.offset)
                 return field.from_stream(stream, context, {})
@@ -721,11 +736,12 @@ class Struct(HasStruct):
                 stream.seek(original_offset)
 
         # If we get here then the field is *not* at a fixed offset from the beginning of
-        # the struct, and we have to read everything up to it. This can unfortunately
+        # the struct, or it needs the values of other fields to be loaded. Either way,
+        # we have to read everything up to it. This can unfortunately
         # result in validation errors if there is data before the desired field that's
         # invalid.
         try:
-            loaded_data = cls.partial_load(stream, name, context)
+            loaded_data = cls._load_fields(stream, name, context)
         finally:
             stream.seek(original_offset)
         return loaded_data[name]
-- 
2.43.0


From b9ac49f20e23bf795d1a3b7579816eefb083db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 22/42] fix: partial_dump must handle fields depending on
 others like a full dump does

---
 binobj/structures.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 1774aa0..93afe17 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -765,21 +765,29 @@ class Struct(HasStruct):
             Any object containing extra information to pass to the fields'
             :meth:`~binobj.fields.base.Field.from_stream` methods.
         """
-        data = self.__values__
+        data = self._to_dict_whatever_possible(context)
+
+        for name, value in data.items():
+            try:
+                data[name] = recursive_to_dicts(value, True, context)
+            except errors.SerializationError:
+                # There's an incomplete struct in here. That's only a problem if we get
+                # to the point where it needs to be dumped.
+                continue
 
         for field in self.__binobj_struct__.components.values():
-            value = data.get(field.name, field.default)
+            value = data.get(field.name, fields.UNDEFINED)
             if value is fields.UNDEFINED:
                 # Field is missing from the dump data. If the caller wants us to dump
                 # only the fields that're defined, we can bail out now.
                 if last_field is None:
                     return
-                if field.required:
-                    # Caller wants us to dump up to and including ``last_field`` so we
-                    # need to crash.
-                    raise errors.MissingRequiredValueError(field=field)
+                # Caller wants us to dump up to and including ``last_field`` so we need
+                # to crash.
+                raise errors.MissingRequiredValueError(field=field)
 
-            field.to_stream(stream, value, context)
+            if value is not fields.NOT_PRESENT:
+                field.to_stream(stream, value, context, data)
             if field.name == last_field:
                 return
 
-- 
2.43.0


From ac6d39f9be9601f880f3f6ba27dcca643ed3c571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 23/42] fix: len(struct) must match what gets dumped

---
 binobj/structures.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 93afe17..a322450 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -839,6 +839,8 @@ class Struct(HasStruct):
         current_fields = self._to_dict_whatever_possible()
 
         for field in self.__binobj_struct__.components.values():
+            if current_fields.get(field.name) is fields.NOT_PRESENT:
+                continue
             if field.has_fixed_size:
                 size += typing.cast(int, field.size)
             else:
@@ -846,7 +848,12 @@ class Struct(HasStruct):
                     size += field.get_expected_size(current_fields)
                 except errors.Error:
                     field_value = field.compute_value_for_dump(current_fields)
-                    size += len(field.to_bytes(field_value))
+                    size += len(
+                        field.to_bytes(
+                            recursive_to_dicts(field_value, keep_discardable=True),
+                            all_fields=current_fields,
+                        )
+                    )
 
         return size
 
-- 
2.43.0


From f4530c5566cde46d1569328ddc24d494f4edc498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 24/42] fix: pad the representation of null to the size of the
 field

---
 binobj/fields/base.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index c647c40..17b2a6f 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -967,7 +967,15 @@ class Field(Generic[T]):
                 context=None,
                 all_fields=all_fields,
             )
-            return buf.getvalue()
+            null_repr = buf.getvalue()
+            if self.size is None:
+                return null_repr
+
+            # As with any other value, it has to fill the entire field.
+            expected_size = self.get_expected_size(all_fields)
+            if len(null_repr) < expected_size:
+                return self._add_padding(null_repr, expected_size)
+            return null_repr
 
         # User wants us to use all null bytes for the default null value.
         try:
-- 
2.43.0


From 02eeb75f7b0b82dfd41156b4c1a85c093c90f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 25/42] fix: don't ignore the default given to a field instance
 or struct annotation

---
 binobj/pep526.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index a2ef1b6..d206b0b 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -156,7 +156,7 @@ class AnnotationInfo:
             # We got a class object. Could be a struct or field, ignore everything else.
             if issubclass(self.type_class, Struct):
                 # A Struct class is shorthand for Nested(Struct).
-                return fields.Nested(self.type_class)
+                return fields.Nested(self.type_class, default=self.default_value)
             if issubclass(self.type_class, fields.Field):
                 # This is a Field class. Initialize it with only the arguments we're
                 # certain of. This gives us a Field instance.
@@ -172,8 +172,15 @@ class AnnotationInfo:
             # Not an instance of Field -- ignore
             return None
 
-        # Else: The annotation is a field instance.
-        return self.type_class
+        # Else: The annotation is a field instance. Use the default value assigned in the
+        # class body unless the field already has one.
+        instance = self.type_class
+        if instance.factory is None and instance.default is fields.UNDEFINED:
+            if callable(self.default_value):
+                instance.factory = self.default_value
+            else:
+                instance._default = self.default_value  # noqa: SLF001
+        return instance
 
 
 def dataclass(class_object: type[TStruct]) -> type[TStruct]:
-- 
2.43.0


From 86e76ac2a239c13d9c7514e33f34cf2171ab99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 26/42] fix: comparing structs must not require their size to
 be known

---
 binobj/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index a322450..889140c 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -871,12 +871,12 @@ class Struct(HasStruct):
 
         # Compare only defined values by using __iter__ to get the keys that are
         # defined.
-        self_values = recursive_to_dicts({n: self[n] for n in list(self)})
+        self_values = recursive_to_dicts({n: self[n] for n in self})
 
         if not isinstance(other, (Struct, Mapping)):
             return False
 
-        other_values = recursive_to_dicts({n: other[n] for n in list(other)})
+        other_values = recursive_to_dicts({n: other[n] for n in other})
         return other_values == self_values
 
     def __bytes__(self) -> bytes:
-- 
2.43.0


From 1f87d1eb82c18b127ab175671bbd4cdd8f583382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 27/42] fix: encode negative powers of two minimally in signed
 LEB128

---
 binobj/varints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/varints.py b/binobj/varints.py
index b8d06c6..f1b4386 100644
--- a/binobj/varints.py
+++ b/binobj/varints.py
@@ -214,9 +214,10 @@ def encode_integer_leb128(value: int) -> bytes:
 
     # Calculate the number of bits in the integer and round up to the nearest multiple
     # of 7. We need to add 1 bit because bit_length() only returns the number of bits
-    # required to encode the magnitude, but not the sign.
+    # required to encode the magnitude, but not the sign. In two's complement -2**n
+    # needs as many bits as 2**n - 1, so we can't use the magnitude of negative numbers.
 
-    n_bits = value.bit_length() + 1
+    n_bits = (value if value >= 0 else ~value).bit_length() + 1
     if n_bits % 7:
         n_bits += 7 - (n_bits % 7)
 
-- 
2.43.0


From 8b552c053757cb3090cb46597d04579a11e77bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 28/42] fix: don't compute the values of absent fields

---
 binobj/fields/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index 17b2a6f..b3d2769 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -455,7 +455,15 @@ class Field(Generic[T]):
               Before, if a field had a value explicitly set, it would be included in the
               output even if present() would've returned False.
         """
-        if self.name in all_values:
+        is_set = self.name in all_values
+        if is_set and all_values[self.name] is NOT_PRESENT:
+            return NOT_PRESENT
+        if not self.present(all_values, context, None):
+            # Don't compute anything for an absent field. What its value depends on is
+            # likely to be absent as well.
+            return NOT_PRESENT
+
+        if is_set:
             # The value is already set in the struct so we don't need to do anything.
             value_to_dump = all_values[self.name]
         elif self._default is not UNDEFINED or self.factory is not None:
@@ -470,8 +478,6 @@ class Field(Generic[T]):
             # We were unable to find a value for this field.
             value_to_dump = UNDEFINED
 
-        if value_to_dump is NOT_PRESENT or not self.present(all_values, context, None):
-            return NOT_PRESENT
         if value_to_dump is UNDEFINED:
             # No default value and this isn't a computed field either.
             raise errors.MissingRequiredValueError(field=self)
-- 
2.43.0


From b71145166775300705ee048bae7ab1fe69f80fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 29/42] fix: report undeterminable null representations instead
 of recursing

---
 binobj/fields/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index b3d2769..c1208cf 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -658,6 +658,11 @@ class Field(Generic[T]):
         else:
             raise errors.UndefinedSizeError(field=self)
 
+        if value is None and self.null_value in (DEFAULT, None):
+            # The representation of null is all null bytes in the size of this field, so
+            # asking for its length would only get us back here.
+            raise errors.UndefinedSizeError(field=self)
+
         try:
             if value is None:
                 return len(self._get_null_repr(field_values))
-- 
2.43.0


From 476ca23e51af65ce23aed888baf5e3286ddc714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 30/42] fix: let the struct proxy's pop() return the given
 default for unset fields

---
 binobj/structures.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/binobj/structures.py b/binobj/structures.py
index 889140c..24a649f 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -957,6 +957,17 @@ class MutableStructMappingProxy(StructMappingProxy, MutableMapping[str, Any]):
     def __delitem__(self, key: str) -> None:
         del self.struct[key]
 
+    def pop(self, key: str, default: Any = fields.UNDEFINED) -> Any:
+        try:
+            value = self[key]
+        except (KeyError, errors.MissingRequiredValueError):
+            if default is fields.UNDEFINED:
+                raise
+            return default
+
+        del self[key]
+        return value
+
     def setdefault(self, key: str, default: Any = None) -> Any:
         try:
             return self[key]
-- 
2.43.0


From 3a9d8c1612a71166af3f060cef7ce940a941d2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:47 +0000
Subject: [PATCH 31/42] fix: set __objclass__ on fields declared with
 annotations, too

---
 binobj/pep526.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index d206b0b..ea512ad 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -299,6 +299,7 @@ def dataclass(class_object: type[TStruct]) -> type[TStruct]:
         #
         # If we don't do this `MyStruct.foo` will be `123`, not a Field object.
         setattr(class_object, name, field_instance)
+        field_instance.__objclass__ = class_object
 
     if n_fields_found == 0:
         raise errors.NoDefinedFieldsError(struct=class_object)
-- 
2.43.0


From 9b5e82d1b8e2d79ccb9b27fe0cea3d32b63b7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 32/42] fix: apply struct-wide argument defaults to floats,
 timestamps and strings

---
 binobj/fields/numeric.py    | 17 ++++++++++++-----
 binobj/fields/stringlike.py | 22 ++++++++++++++++++++++
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 2fe23d9..63bdf43 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -72,6 +72,8 @@ class Float(Field[float]):
     .. _format character: https://docs.python.org/3/library/struct.html#format-characters
     """
 
+    __overrideable_attributes__ = ("endian",)
+
     def __init__(
         self,
         *,
@@ -82,14 +84,17 @@ class Float(Field[float]):
         super().__init__(size=struct.calcsize(format_string), **kwargs)
 
         self.endian = endian or sys.byteorder
-        if self.endian == "big":
-            self.format_string = ">" + format_string
-        elif self.endian == "little":
-            self.format_string = "<" + format_string
-        else:
+        if self.endian not in ("big", "little"):
             raise errors.ConfigurationError(
                 f"`endian` must be 'big' or 'little', got {endian!r}.", field=self
             )
+        self._format_character = format_string
+
+    @property
+    def format_string(self) -> str:
+        """The format for the :mod:`struct` library, including the byte order."""
+        # The byte order can be changed by the struct this field gets bound to.
+        return (">" if self.endian == "big" else "<") + self._format_character
 
     @override
     def _do_load(
@@ -404,6 +409,8 @@ class Timestamp(Field[datetime.datetime]):
         "ns": 1_000_000_000,
     }
 
+    __overrideable_attributes__ = ("endian",)
+
     def __init__(
         self,
         *,
diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index a19dc42..b318258 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -12,6 +12,7 @@ from typing_extensions import override
 
 from binobj import errors
 from binobj import helpers
+from binobj.fields.base import UNDEFINED
 from binobj.fields.base import Field
 
 
@@ -20,6 +21,7 @@ if TYPE_CHECKING:  # pragma: no cover
     from typing import BinaryIO
     from typing import Optional
 
+    from binobj.structures import StructMetadata
     from binobj.typedefs import StrDict
 
 
@@ -77,6 +79,8 @@ class String(Field[str]):
     .. _ISO 8859-1: https://en.wikipedia.org/wiki/ISO/IEC_8859-1
     """
 
+    __overrideable_attributes__ = ("encoding",)
+
     def __init__(
         self,
         *,
@@ -98,6 +102,24 @@ class String(Field[str]):
         self.pad_byte = pad_byte
         super().__init__(**kwargs)
 
+    @override
+    def bind_to_container(
+        self,
+        struct_info: StructMetadata,
+        name: str,
+        index: int,
+        offset: Optional[int] = None,
+    ) -> None:
+        const = self.const
+        is_size_derived = (
+            const is not UNDEFINED and self.size == self._size_for_value(const)
+        )
+        super().bind_to_container(struct_info, name, index, offset)
+
+        if const is not UNDEFINED and is_size_derived:
+            # The struct might have changed the encoding, and the size along with it.
+            self._size = self._size_for_value(const)
+
     @override
     def _do_load(
         self, stream: BinaryIO, context: object, loaded_fields: StrDict
-- 
2.43.0


From f9161f35f3aa2c0a4bc69060ee9315d124405697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:40 +0000
Subject: [PATCH 33/42] fix: accept X | None as an annotation, like Optional[X]

---
 binobj/pep526.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index ea512ad..3a25d1f 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -35,6 +35,7 @@ Here are a few examples of how you can declare your fields::
 from __future__ import annotations
 
 import dataclasses
+import types
 import typing
 import warnings
 from typing import Any
@@ -62,6 +63,10 @@ __all__ = ["dataclass"]
 TStruct = TypeVar("TStruct", bound=Struct)
 
 
+# `X | None` isn't an instance of `typing.Union` in all versions of Python supporting it.
+_UNION_TYPES = (Union, getattr(types, "UnionType", Union))
+
+
 def flatten_annotations(annotation: Any) -> list[Any]:
     """Convert an annotation that *might* be a :class:`typing.Annotated` into a list.
 
@@ -115,7 +120,7 @@ class AnnotationInfo:
         # Handle Optional[T] which gets rendered as Union[T, type(None)].
         # We have to compare types directly with `is` because the type annotations don't
         # support isinstance() and issubclass().
-        if typing.get_origin(type_class) is Union:
+        if typing.get_origin(type_class) in _UNION_TYPES:
             # Filter out None from the type arguments.
             type_args = tuple(t for t in type_args if t is not type(None))
 
-- 
2.43.0


From a95fc81e38ad2d8db2ac9157c06ec7c1dcb63973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 34/42] fix: reject invalid byte orders of integers and
 timestamps when declared

---
 binobj/fields/numeric.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/binobj/fields/numeric.py b/binobj/fields/numeric.py
index 63bdf43..6bbb574 100644
--- a/binobj/fields/numeric.py
+++ b/binobj/fields/numeric.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import datetime
 import struct
 import sys
+import typing
 import warnings
 from typing import Literal
 from typing import TYPE_CHECKING
@@ -56,7 +57,27 @@ FloatFormat = Literal["e", "f", "d"]
 _UNIX_EPOCH: Final = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
 
 
-class Float(Field[float]):
+class _HasEndian:
+    """Mixin for fields that have a byte order."""
+
+    _endian: EndianString
+
+    @property
+    def endian(self) -> EndianString:
+        """The byte order of this field, either "big" or "little"."""
+        return self._endian
+
+    @endian.setter
+    def endian(self, value: EndianString) -> None:
+        if value not in ("big", "little"):
+            raise errors.ConfigurationError(
+                f"`endian` must be 'big' or 'little', got {value!r}.",
+                field=typing.cast("Field[Any]", self),
+            )
+        self._endian = value
+
+
+class Float(_HasEndian, Field[float]):
     """A floating-point number in IEEE-754:2008 interchange format.
 
     This is a base class and should not be used directly.
@@ -84,10 +105,6 @@ class Float(Field[float]):
         super().__init__(size=struct.calcsize(format_string), **kwargs)
 
         self.endian = endian or sys.byteorder
-        if self.endian not in ("big", "little"):
-            raise errors.ConfigurationError(
-                f"`endian` must be 'big' or 'little', got {endian!r}.", field=self
-            )
         self._format_character = format_string
 
     @property
@@ -153,7 +170,7 @@ class Float64(Float):
         super().__init__(format_string="d", **kwargs)
 
 
-class Integer(Field[int]):
+class Integer(_HasEndian, Field[int]):
     """A two's-complement integer of some fixed size.
 
     This class is typically not used directly, except for integers with sizes that
@@ -351,7 +368,7 @@ class UInt64(Int64):
         super().__init__(signed=False, **kwargs)
 
 
-class Timestamp(Field[datetime.datetime]):
+class Timestamp(_HasEndian, Field[datetime.datetime]):
     r"""A timestamp stored as an integer offset from the `Unix epoch`_.
 
     Timestamps are stored in UTC. When dumping, naive datetimes are assumed to be in the
-- 
2.43.0


From 795e9db0289098274cab5b6130720f1b69f72535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 35/42] fix: resize constant strings only if their size was
 derived from them

---
 binobj/fields/stringlike.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/binobj/fields/stringlike.py b/binobj/fields/stringlike.py
index b318258..552db91 100644
--- a/binobj/fields/stringlike.py
+++ b/binobj/fields/stringlike.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import codecs
 import enum
 import io
+import typing
 import uuid
 from typing import TYPE_CHECKING
 
@@ -101,6 +102,9 @@ class String(Field[str]):
         self.encoding = encoding
         self.pad_byte = pad_byte
         super().__init__(**kwargs)
+        self._is_size_derived = (
+            self.const is not UNDEFINED and kwargs.get("size") is None
+        )
 
     @override
     def bind_to_container(
@@ -110,15 +114,11 @@ class String(Field[str]):
         index: int,
         offset: Optional[int] = None,
     ) -> None:
-        const = self.const
-        is_size_derived = (
-            const is not UNDEFINED and self.size == self._size_for_value(const)
-        )
         super().bind_to_container(struct_info, name, index, offset)
 
-        if const is not UNDEFINED and is_size_derived:
+        if self._is_size_derived:
             # The struct might have changed the encoding, and the size along with it.
-            self._size = self._size_for_value(const)
+            self._size = self._size_for_value(typing.cast(str, self.const))
 
     @override
     def _do_load(
-- 
2.43.0


From e35a6bb06f13c7a03f559e9a2a7fc2c25bc42a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 36/42] fix: let union fields used on their own dump struct
 instances, like nested fields

---
 binobj/fields/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binobj/fields/containers.py b/binobj/fields/containers.py
index fdee0f0..13bf5a8 100644
--- a/binobj/fields/containers.py
+++ b/binobj/fields/containers.py
@@ -491,6 +491,10 @@ class Union(Field[Any]):
         if isinstance(dumper, Field):
             dumper.to_stream(stream, data, context, all_fields)
         elif issubclass(dumper, Struct):
+            if isinstance(data, Struct):
+                # Structs convert nested ones before dumping their fields, but this
+                # field can also be used on its own.
+                data = data.to_dict(keep_discardable=True, context=context)
             if not isinstance(data, Mapping):
                 raise TypeError(
                     f"Cannot dump a non-Mapping-like object as a {dumper!r}: {data!r}",
-- 
2.43.0


From 0cc63bcb7ceef5b30c66a608c7d5b7b30885ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 37/42] fix: allow a field to be called self

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 24a649f..3b7ab02 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -364,7 +364,7 @@ class Struct(HasStruct):
         The ``__objclass__`` attribute is set on all fields.
     """
 
-    def __init__(self, **values: object):
+    def __init__(self, /, **values: object):
         extra_keys = set(values.keys() - self.__binobj_struct__.components.keys())
         if extra_keys:
             raise errors.UnexpectedValueError(struct=self, name=extra_keys)
-- 
2.43.0


From 9136965efbabf3a125f0a452e3714091158a0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 38/42] fix: don't warn about callable attributes that aren't
 fields

---
 binobj/pep526.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binobj/pep526.py b/binobj/pep526.py
index 3a25d1f..692aedd 100644
--- a/binobj/pep526.py
+++ b/binobj/pep526.py
@@ -79,6 +79,13 @@ def flatten_annotations(annotation: Any) -> list[Any]:
     return list(annotation.__metadata__)
 
 
+def is_field_annotation(type_class: Any) -> bool:
+    """Does this annotation declare a field, as opposed to any other attribute?"""
+    return isinstance(type_class, fields.Field) or (
+        isinstance(type_class, type) and issubclass(type_class, (fields.Field, Struct))
+    )
+
+
 @dataclasses.dataclass
 class AnnotationInfo:
     name: str
@@ -138,7 +145,7 @@ class AnnotationInfo:
             type_args = typing.get_args(type_class)
 
         default_value = getattr(struct_class, field_name, fields.UNDEFINED)
-        if callable(default_value):
+        if callable(default_value) and is_field_annotation(type_class):
             warnings.warn(
                 "Passing a bare callable as the default value was a misfeature. Use"
                 " the `factory` keyword argument instead.",
-- 
2.43.0


From 36942b139a9df2d6e04f6b67600426b921cf6340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 39/42] fix: name the class that has several parents in the
 error, not StructMetadata

---
 binobj/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index 3b7ab02..fef65af 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -119,7 +119,7 @@ class StructMetadata:
         ]
 
         if len(struct_bases) > 1:
-            raise errors.MultipleInheritanceError(struct=cls.__name__)
+            raise errors.MultipleInheritanceError(struct=struct_class.__name__)
 
         metadata = cls(name=struct_class.__name__)
         namespace = vars(struct_class)
-- 
2.43.0


From aae7b53cf2bdf551db01ba21a105422baee18f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 40/42] fix: show the value in the error about fields with a
 broken _size_for_value()

---
 binobj/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/fields/base.py b/binobj/fields/base.py
index c1208cf..e3af937 100644
--- a/binobj/fields/base.py
+++ b/binobj/fields/base.py
@@ -676,7 +676,7 @@ class Field(Generic[T]):
                 f"{type(self).__qualname__} is broken: either _size_for_value() (or"
                 " less likely, _get_null_repr()) calls one of the `Field.to_*` or"
                 " `Field.from_*` methods. Doing so causes infinite recursion. (Value:"
-                " {value!r})",
+                f" {value!r})",
                 field=self,
             ) from None
 
-- 
2.43.0


From 24fc889a93ec31be3fffed8b3c1bbe7de22e169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 41/42] fix: refuse NaN for unsigned LEB128 integers instead of
 writing nothing

---
 binobj/varints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binobj/varints.py b/binobj/varints.py
index f1b4386..7e05086 100644
--- a/binobj/varints.py
+++ b/binobj/varints.py
@@ -173,7 +173,7 @@ def encode_integer_uleb128(value: int) -> bytes:
 
     output = bytearray()
 
-    while value > 0:
+    while value:
         continue_bit = 128 if value > 127 else 0
         output.append(continue_bit | (value & 0x7F))
         value >>= 7
-- 
2.43.0


From 86f00726ddf4c96963204df273a0ae856a8f2958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 42/42] fix: count bytes, not items, of bytes-like objects in
 exact Struct.from_bytes

---
 binobj/structures.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binobj/structures.py b/binobj/structures.py
index fef65af..877c84f 100644
--- a/binobj/structures.py
+++ b/binobj/structures.py
@@ -603,9 +603,10 @@ class Struct(HasStruct):
         loaded_data = cls.from_stream(stream, context, init_kwargs)
 
         here = stream.tell()
-        if exact and (here < len(data)):
+        n_bytes = memoryview(data).nbytes  # len() can count items of several bytes
+        if exact and (here < n_bytes):
             raise errors.ExtraneousDataError(
-                f"Read {here} bytes, but there are {len(data)} in the input data.",
+                f"Read {here} bytes, but there are {n_bytes} in the input data.",
                 offset=stream.tell(),
             )
         return loaded_data
-- 
2.43.0

