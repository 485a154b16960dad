V = "skops/io/_visualize.py"
AU = "skops/io/_audit.py"
G = "skops/io/_general.py"
NP = "skops/io/_numpy.py"
C15 = {"C15"}
C19 = {"C19"}
C20 = {"C20"}
PP = "skops/card/_parser.py"
MU = "skops/card/_markup.py"
BUGS = [
    ("vis-list-first", {"C13"}, [(V, "for i, val in enumerate(node, start=1):", "for i, val in enumerate(node[:1], start=1):")]),
    ("vis-object-array", {"C13"}, [(V, "if not (isinstance(node, NdArrayNode) and node.type == \"json\"):\n            return\n        if node.is_safe():\n            return", "return")]),
    ("vis-swap-flags", {"C13"}, [(V, "is_safe=node.is_safe(),", "is_safe=node.is_self_safe(),")]),
    ("vis-self-flag", {"C13"}, [(V, "is_self_safe=node.is_self_safe(),", "is_self_safe=node.is_safe() or True,")]),
    ("vis-keytypes", {"C13"}, [(V, "if isinstance(node, DictNode) and children[\"key_types\"].is_safe():", "if isinstance(node, DictNode):")]),
    ("vis-skip-obj", {"C13"}, [(V, "    SparseMatrixNode,\n)", "    SparseMatrixNode,\n    Node,\n)")]),
    ("vis-trusted", {"C13"}, [(V, "get_tree(schema, load_context=load_context, trusted=trusted)", "get_tree(schema, load_context=load_context, trusted=None)")]),
    ("vis-level", {"C13"}, [(V, "        level=level + 1,\n", "        level=level + 2,\n")]),
    ("vis-show-untrusted", {"C13"}, [(V, "return not is_safe\n", "return not is_self_safe\n")]),
    ("vis-show-default", {"C13"}, [(V, "    return is_self_safe\n", "    return is_safe\n")]),
    ("vis-tag", {"C13"}, [(V, "tag = tag_safe if node.is_self_safe else tag_unsafe", "tag = tag_safe if node.is_self_safe or use_colors else tag_unsafe")]),
    ("vis-colour", {"C13"}, [(V, "        if node.is_safe:\n", "        if node.is_safe or node.is_self_safe:\n")]),
    ("vis-is-safe-self", {"C13"}, [(AU, "return len(self.get_unsafe_set()) == 0", "return self.is_self_safe()")]),
    ("vis-root-hidden", {"C13"}, [(V, "        if isinstance(node, DictNode) and", "        if isinstance(node, DictNode) and") if False else (V, "if not visible:\n            continue", "if not visible or node.level > 3:\n            continue")]),
]

SC = "skops/io/_scipy.py"
SK = "skops/io/_sklearn.py"
U = "skops/io/_utils.py"
D3 = {"C04", "C05"}
BUGS += [
    ("dat-slice-swap", D3, [(G, "return slice(self.start, self.stop, self.step)", "return slice(self.start, self.step, self.stop)")]),
    ("dat-slice-step", D3, [(G, "\"step\": obj.step,", "\"step\": obj.step or None,")]),
    ("dat-slice-nostep", D3, [(G, "return slice(self.start, self.stop, self.step)", "return slice(self.start, self.stop)")]),
    ("dat-mask-lost", D3, [(NP, "array = np.ma.MaskedArray(data, mask)", "array = np.ma.MaskedArray(data)")]),
    ("dat-mask-swapped", D3, [(NP, "array = np.ma.MaskedArray(data, mask)", "array = np.ma.MaskedArray(mask, data)")]),
    ("dat-mask-filled", D3, [(NP, "get_state(obj.data, save_context)", "get_state(obj.filled(), save_context)")]),
    ("dat-contiguous", D3, [(NP, "np.save(data_buffer, obj, allow_pickle=False)", "np.save(data_buffer, np.ascontiguousarray(obj), allow_pickle=False)")]),
    ("dat-byteorder", D3, [(NP, "np.save(data_buffer, obj, allow_pickle=False)", "np.save(data_buffer, obj.astype(obj.dtype.newbyteorder('=')), allow_pickle=False)")]),
    ("dat-rs-legacy", D3, [(NP, "get_state(obj.get_state(legacy=False), save_context)", "get_state(obj.get_state(legacy=True), save_context)")]),
    ("dat-rs-noset", D3, [(NP, "        random_state.set_state(content)\n", "")]),
    ("dat-gen-noset", D3, [(NP, "        bit_generator.state = bit_generator_state\n", "")]),
    ("dat-gen-seed", {"C04"}, [(NP, "bit_generator = bit_generator_cls(seed_seq)", "bit_generator = bit_generator_cls()")]),
    ("dat-gen-bitgen", D3, [(NP, "bit_generator_cls = BIT_GENERATORS[bit_generator_state[\"bit_generator\"]]", "bit_generator_cls = np.random.PCG64")]),
    ("dat-shape", D3, [(NP, "res[\"shape\"] = get_state(obj.shape, save_context)", "res[\"shape\"] = get_state(obj.shape[::-1], save_context)")]),
    ("dat-shape-flat", D3, [(NP, "np.ndarray(shape=shape, dtype=\"O\")", "np.ndarray(shape=(len(values),), dtype=\"O\")")]),
    ("dat-obj-T", D3, [(NP, "obj_serialized = get_state(obj.tolist(), save_context)", "obj_serialized = get_state(obj.T.tolist(), save_context)")]),
    ("dat-dd-factory", D3, [(G, "        instance.default_factory = self.children[\"default_factory\"].construct()\n", "")]),
    ("dat-dd-content", D3, [(G, "        instance.update(self.children[\"main\"].construct())\n", "")]),
    ("dat-dict-sorted", D3, [(G, "for key, value in obj.items():", "for key, value in sorted(obj.items(), key=str):")]),
    ("dat-dict-keyitem", D3, [(G, "key_types = get_state([type(key) for key in obj.keys()], save_context)", "key_types = get_state([type(key) for key in sorted(obj, key=str)], save_context)")]),
    ("dat-dict-type", D3, [(G, "content = gettype(self.module_name, self.class_name)()", "content = {}")]),
    ("dat-dict-nokt", D3, [(G, "content[k_type(key)] = val.construct()", "content[key] = val.construct()")]),
    ("dat-list-skip", D3, [(G, "content = [get_state(value, save_context) for value in obj]\n\n    res", "content = [get_state(value, save_context) for value in obj if value is not None]\n\n    res")]),
    ("dat-list-type", {"C04"}, [(G, "return content_type([item.construct() for item in self.children[\"content\"]])", "return [item.construct() for item in self.children[\"content\"]]")]),
    ("dat-list-rev", D3, [(G, "return content_type([item.construct() for item in self.children[\"content\"]])", "return content_type([item.construct() for item in reversed(self.children[\"content\"])])")]),
    ("dat-tuple-cls", {"C04"}, [(G, "        if self.isnamedtuple(cls):\n            return cls(*content)\n", "        if self.isnamedtuple(cls):\n            return content\n")]),
    ("dat-partial-kwds", D3, [(G, "instance.__setstate__((func, args, kwds, namespace))", "instance.__setstate__((func, args, {}, namespace))"), (G, "instance = partial(func, *args, **kwds)", "instance = partial(func, *args)")]),
    ("dat-partial-ns", {"C04"}, [(G, "        instance.__setstate__((func, args, kwds, namespace))  # type: ignore\n", "")]),
    ("dat-partial-any", {"C04"}, [(G, "    if type(obj) is not partial:\n        # a subclass would be loaded as a plain partial\n        raise UnsupportedTypeException(obj)\n", "")]),
    ("dat-partial-order", D3, [(G, "_, _, (func, args, kwds, namespace) = obj.__reduce__()", "_, _, (func, kwds, args, namespace) = obj.__reduce__()")]),
    ("dat-json-sub", {"C04"}, [(G, "        if type(json.loads(obj_str)) is type(obj):\n            return {", "        if isinstance(obj, type(json.loads(obj_str))):\n            return {")]),
    ("dat-json-nan", {"C05"}, [(G, "obj_str = json.dumps(obj)", "obj_str = json.dumps(obj, allow_nan=False)")]),
    ("dat-reduce-any", {"C04"}, [(G, "if len(reduce_output) == 2 and reduce_output[0] is type(obj):", "if reduce_output[0] is type(obj):")]),
    ("dat-frozenset", {"C04"}, [(G, "            (constructor is type(obj) and args)\n            or", "            ")]),
    ("dat-builtin-base", {"C04"}, [(G, "            or (constructor is copyreg._reconstructor and args[1] is not object)\n", "")]),
    ("dat-items", {"C04"}, [(G, "            or any(item is not None for item in reduce_output[3:])\n", "")]),
    ("dat-setstate", {"C04", "C07"}, [(G, "            if hasattr(instance, \"__setstate__\"):\n                instance.__setstate__(attrs)\n            else:\n                instance.__dict__.update(attrs)", "            instance.__dict__.update(attrs)")]),
    ("dat-getstate", {"C04", "C07"}, [(G, "    if hasattr(obj, \"__getstate__\"):\n        attrs = obj.__getstate__()\n    elif", "    if")]),
    ("dat-init", {"C04", "C07"}, [(G, "instance = cls.__new__(cls)  # type: ignore", "instance = cls()")]),
    ("dat-private", {"C04", "C07"}, [(G, "    content = get_state(attrs, save_context)\n    # it's", "    content = get_state({k: v for k, v in attrs.items() if not k.startswith('_')}, save_context)\n    # it's")]),
    ("dat-none-attrs", {"C04"}, [(G, "    content = get_state(attrs, save_context)\n    # it's", "    attrs.pop('_repr_html_', None)\n    content = get_state(attrs, save_context)\n    # it's")]),
    ("dat-bytes", D3, [(G, "content = self.children[\"content\"].getvalue()\n        return", "content = self.children[\"content\"].getvalue().rstrip(b'\\0')\n        return")]),
    ("dat-bytes-type", D3, [(G, "return gettype(self.module_name, self.class_name)(content)", "return bytes(content)")]),
    ("dat-op-type", D3, [(G, "return op(*attrs)", "return op(attrs)")]),
    ("dat-op-attrs", D3, [(G, "\"attrs\": get_state(attrs, save_context),", "\"attrs\": get_state(attrs[:1], save_context),")]),
    ("dat-op-mc", {"C04"}, [(G, "    if constructor is not type(obj):\n        # methodcaller with keyword arguments reduces to a partial\n        raise UnsupportedTypeException(obj)\n", "")]),
    ("dat-method", {"C04"}, [(G, "    if getattr(obj.__self__, obj.__func__.__name__, obj) != obj:\n        # e.g. a method of a parent class, which is overridden in the class\n        raise UnsupportedTypeException(obj)\n", "")]),
    ("dat-name", {"C04"}, [(G, "    check_name(obj, res[\"__module__\"])\n    return res\n\n\nclass FunctionNode", "    return res\n\n\nclass FunctionNode")]),
    ("dat-tree-state", {"C04", "C07"}, [(SK, "        attrs = reduced[2]\n", "        attrs = obj.__getstate__() if hasattr(obj, '__getstate__') and False else {}\n")]),
    ("dat-tree-setstate", {"C04", "C07"}, [(SK, "            instance.__setstate__(attrs)\n", "            pass\n")]),
    ("dat-tree-args", {"C04", "C07"}, [(SK, "res[\"__reduce__\"][\"args\"] = get_state(reduced[1], save_context)", "res[\"__reduce__\"][\"args\"] = get_state(reduced[1][:2], save_context)")]),
    ("dat-tree-sub", {"C04"}, [(SK, "    if type(obj) is not Tree:\n        # a subclass would be loaded as a plain Tree\n        raise UnsupportedTypeException(obj)\n", "")]),
    ("dat-loss", {"C04", "C07"}, [(SK, "get_state(reduce[1][2], save_context)", "get_state((), save_context)")]),
    ("dat-sparse", D3, [(SC, "save_npz(data_buffer, obj)", "save_npz(data_buffer, obj.tocsr())")]),
    ("dat-sparse-sum", {"C04"}, [(SC, "    data_buffer = io.BytesIO()\n", "    obj.sum_duplicates()\n    data_buffer = io.BytesIO()\n")]),
    ("dat-dtype", D3, [(NP, "tmp: np.typing.NDArray = np.ndarray(0, dtype=obj.base)", "tmp: np.typing.NDArray = np.ndarray(0, dtype=obj.base.newbyteorder('='))")]),
    ("dat-np-view", {"C04"}, [(NP, "            if f\"{self.module_name}.{self.class_name}\" != \"numpy.ndarray\":\n                content = content.view(gettype(self.module_name, self.class_name))\n            return content", "            return content")]),
    ("dat-key-bool", {"C04"}, [(G, "isinstance(key, bool) or key is None or json_key in json_keys", "key is None or json_key in json_keys")]),
    ("dat-key-clash", {"C04"}, [(G, "isinstance(key, bool) or key is None or json_key in json_keys", "isinstance(key, bool) or key is None")]),
    ("dat-key-overrefuse", {"C05"}, [(G, "isinstance(key, bool) or key is None or json_key in json_keys", "not isinstance(key, (str, int)) or isinstance(key, bool) or json_key in json_keys")]),
    ("dat-unsup", {"C05"}, [(G, "    (bytearray, bytearray_get_state),\n", "    (bytearray, unsupported_get_state),\n")]),
    ("dat-mutate", {"C04"}, [(G, "    content[\"main\"] = get_state(dict(obj), save_context)\n    content[\"default_factory\"]", "    obj.pop(None, None)\n    content[\"main\"] = get_state(dict(obj), save_context)\n    content[\"default_factory\"]")]),
    ("dat-est", {"C07"}, [("skops/io/_trusted_types.py", "if get_type_name(estimator_class).startswith(\"sklearn.\")", "if get_type_name(estimator_class).startswith(\"sklearn.\") and \"Search\" not in estimator_class.__name__")]),
]

PE = "skops/io/_persist.py"
Q = "skops/io/_quantile_forest.py"
V0F = "skops/io/old/_general_v0.py"
V1R = "skops/io/old/_numpy_v1.py"
SAVE = "    buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n    if isinstance(file, (str, Path)):\n        with open(file, \"wb\") as f:\n            f.write(buffer.getbuffer())\n    else:\n        file.write(buffer.getbuffer())\n"
SCHEMA = "        zip_file.writestr(\"schema.json\", json.dumps(state, indent=2))\n"
BUGS += [
    # C18
    ("dmp-open-first", {"C18"}, [(PE, SAVE, "    if isinstance(file, (str, Path)):\n        with open(file, \"wb\") as f:\n            buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n            f.write(buffer.getbuffer())\n    else:\n        buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n        file.write(buffer.getbuffer())\n")]),
    ("dmp-stream-file", {"C18"}, [(PE, SAVE, "    if isinstance(file, (str, Path)):\n        buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n        with open(file, \"wb\") as f:\n            f.write(buffer.getbuffer())\n    else:\n        with ZipFile(file, \"w\", compression=compression, compresslevel=compresslevel) as z:\n            sc = SaveContext(zip_file=z)\n            state = get_state(obj, sc)\n            state[\"protocol\"] = sc.protocol\n            state[\"_skops_version\"] = skops.__version__\n            z.writestr(\"schema.json\", json.dumps(state, indent=2))\n")]),
    ("dmp-finally", {"C18"}, [(PE, SAVE, "    buffer = io.BytesIO()\n    try:\n        buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n    finally:\n        if isinstance(file, (str, Path)):\n            with open(file, \"wb\") as f:\n                f.write(buffer.getbuffer())\n        else:\n            file.write(buffer.getbuffer())\n")]),
    ("dmp-touch", {"C18"}, [(PE, SAVE, "    if isinstance(file, Path):\n        file.touch()\n" + SAVE)]),
    ("dmp-unlink", {"C18"}, [(PE, SAVE, "    if isinstance(file, (str, Path)):\n        Path(file).unlink(missing_ok=True)\n" + SAVE)]),
    ("dmp-truncate", {"C18"}, [(PE, SAVE, "    if not isinstance(file, (str, Path)) and hasattr(file, 'truncate'):\n        file.truncate(0)\n" + SAVE)]),
    ("dmp-swallow", {"C18"}, [(PE, "        state = get_state(obj, save_context)\n", "        try:\n            state = get_state(obj, save_context)\n        except TypeError:\n            state = {\"__class__\": \"NoneType\", \"__module__\": \"builtins\", \"__loader__\": \"JsonNode\", \"content\": \"null\", \"is_json\": True}\n")]),
    ("dmp-list-swallow", {"C18"}, [(G, "    content = [get_state(value, save_context) for value in obj]\n\n    res[\"content\"] = content\n    return res\n\n\nclass ListNode", "    content = []\n    for value in obj:\n        try:\n            content.append(get_state(value, save_context))\n        except TypeError:\n            continue\n\n    res[\"content\"] = content\n    return res\n\n\nclass ListNode")]),
    ("dmp-suppress", {"C18"}, [(G, "        content[key] = get_state(value, save_context)\n", "        import contextlib\n        with contextlib.suppress(TypeError):\n            content[key] = get_state(value, save_context)\n")]),
    # C12
    ("arc-double-schema", {"C12"}, [(PE, SCHEMA, SCHEMA + "        if compresslevel is not None:\n            zip_file.writestr(\"schema.json\", json.dumps(state))\n")]),
    ("arc-skipkeys", {"C12"}, [(PE, "json.dumps(state, indent=2)", "json.dumps(state, indent=2, skipkeys=True)")]),
    ("arc-protocol-old", {"C12", "C08"}, [(PE, "state[\"protocol\"] = save_context.protocol", "state[\"protocol\"] = 1")]),
    ("arc-no-version", {"C12"}, [(PE, "        state[\"_skops_version\"] = skops.__version__\n", "        if compression:\n            state[\"_skops_version\"] = skops.__version__\n")]),
    ("arc-after-schema", {"C12"}, [(PE, "        state[\"protocol\"] = save_context.protocol\n        state[\"_skops_version\"] = skops.__version__\n" + SCHEMA, SCHEMA.replace("json.dumps(state, indent=2)", "json.dumps(state, indent=2)") + "        state[\"protocol\"] = save_context.protocol\n        state[\"_skops_version\"] = skops.__version__\n")]),
    ("arc-append", {"C12"}, [(PE, "with open(file, \"wb\") as f:", "with open(file, \"ab\") as f:")]),
    ("arc-rplus", {"C12"}, [(PE, "with open(file, \"wb\") as f:", "with open(file, \"r+b\" if Path(file).exists() else \"wb\") as f:")]),
    ("arc-level-lost", {"C12"}, [(PE, "buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n    if isinstance", "buffer = _save(obj, compression=compression, compresslevel=None)\n\n    if isinstance")]),
    ("arc-part", {"C12"}, [(PE, "    else:\n        file.write(buffer.getbuffer())\n", "    else:\n        file.write(buffer.read())\n")]),
    ("arc-dumps-view", {"C12"}, [(PE, "return buffer.getbuffer().tobytes()", "return buffer.getbuffer()")]),
    ("arc-early", {"C12"}, [(PE, SCHEMA + "\n    return buffer", SCHEMA + "        data = io.BytesIO(buffer.getvalue())\n\n    return data")]),
    ("arc-dir", {"C12"}, [(NP, "f_name = f\"{obj_id}.npy\"", "f_name = f\"arrays/{obj_id}.npy\"")]),
    ("arc-classname", {"C12"}, [(SC, "f_name = f\"{obj_id}.npz\"", "f_name = f\"{type(obj).__name__}.npz\"")]),
    ("arc-orphan", {"C12"}, [(NP, "            res[\"type\"] = \"numpy\"\n", "            res[\"type\"] = \"numpy\"\n            save_context.zip_file.writestr(f\"{obj_id}.meta\", str(obj.shape))\n") if False else (NP, "data_buffer = io.BytesIO()\n", "data_buffer = io.BytesIO()\n            save_context.zip_file.writestr(f\"{id(obj)}.shape\", str(obj.shape))\n")]),
    ("arc-dup", {"C12", "C06"}, [(NP, "            if f_name not in save_context.zip_file.namelist():\n                save_context.zip_file.writestr(f_name, data_buffer.getbuffer())\n", "            save_context.zip_file.writestr(f_name, data_buffer.getbuffer())\n")]),
    ("arc-skip-empty", {"C12"}, [(NP, "            if f_name not in save_context.zip_file.namelist():\n", "            if obj.size and f_name not in save_context.zip_file.namelist():\n")]),
    ("arc-noclass", {"C12"}, [(G, "        \"__loader__\": \"SliceNode\",\n", "")]),
    ("arc-drop-state", {"C12"}, [(G, "    key_types = get_state([type(key) for key in obj.keys()], save_context)\n", "    key_types = get_state([type(key) for key in obj.keys()], save_context)\n    get_state(len(obj), save_context)\n    get_state([*obj.values()], save_context)\n")]),
    ("arc-noid", {"C12", "C06"}, [(U, "    res[\"__id__\"] = __id__\n", "    if isinstance(value, (list, dict)):\n        res[\"__id__\"] = __id__\n")]),
    ("arc-const-name", {"C12"}, [(G, "f_name = f\"{uuid.uuid4()}.bin\"", "f_name = \"data.bin\"")]),
    # C06
    ("shr-nomemo", {"C06"}, [(U, "    __id__ = save_context.memoize(obj=value)\n", "    __id__ = id(value)\n")]),
    ("shr-memo-key", {"C06"}, [(U, "            self.memo[obj_id] = obj\n", "            self.memo[obj_id] = obj_id\n")]),
    ("shr-memo-heap", {"C06"}, [(U, "        if obj_id not in self.memo:\n", "        if obj_id not in self.memo and hasattr(obj, '__dict__'):\n")]),
    ("shr-memo-after", {"C06"}, [(U, "    __id__ = save_context.memoize(obj=value)\n\n    check_name(type(value), type(value).__module__)\n    res = _get_state(value, save_context)\n", "    check_name(type(value), type(value).__module__)\n    res = _get_state(value, save_context)\n    __id__ = save_context.memoize(obj=value)\n")]),
    ("shr-pop", {"C06"}, [(U, "    res[\"__id__\"] = __id__\n", "    res[\"__id__\"] = __id__\n    save_context.memo.pop(__id__, None)\n")]),
    ("shr-clear-writer", {"C06"}, [(G, "    res[\"content\"] = content\n    return res\n\n\nclass ListNode", "    res[\"content\"] = content\n    if len(save_context.memo) > 10000:\n        save_context.clear_memo()\n    return res\n\n\nclass ListNode")]),
    ("shr-idhash", {"C06"}, [(U, "        obj_id = id(obj)\n", "        obj_id = hash(obj) if isinstance(obj, (str, int, tuple)) else id(obj)\n")]),
    ("shr-array-temp", {"C06"}, [(NP, "            obj_id = save_context.memoize(obj)\n", "            obj_id = id(np.asarray(obj))\n")]),
    ("shr-array-uuid", {"C06"}, [(NP, "            f_name = f\"{obj_id}.npy\"", "            import uuid\n            f_name = f\"{uuid.uuid4()}.npy\"")]),
    ("shr-array-data", {"C06"}, [(NP, "            obj_id = save_context.memoize(obj)\n", "            obj_id = obj.__array_interface__[\"data\"][0]\n")]),
    ("shr-load-nomemo", {"C06"}, [(AU, "        if saved_id and memoize:\n", "        if saved_id and memoize and load_context.protocol < 2:\n")]),
    ("shr-load-class", {"C06"}, [(AU, "    if saved_id in load_context.memo:\n", "    if saved_id in load_context.memo and state[\"__loader__\"] != \"ListNode\":\n")]),
    ("shr-construct", {"C06"}, [(AU, "        if self._constructed is not UNINITIALIZED:\n", "        if self._constructed is not UNINITIALIZED and self._constructed:\n")]),
    ("shr-construct-list", {"C06"}, [(AU, "            return self._constructed\n        self._constructed = self._construct()\n        return self._constructed\n", "            return self._constructed\n        constructed = self._construct()\n        if not isinstance(constructed, list):\n            self._constructed = constructed\n        return constructed\n")]),
    ("shr-node-nomemo", {"C06"}, [(G, "class SetNode(Node):\n    def __init__(\n        self,\n        state: dict[str, Any],\n        load_context: LoadContext,\n        trusted: Optional[Sequence[str]] = None,\n    ) -> None:\n        super().__init__(state, load_context, trusted)", "class SetNode(Node):\n    def __init__(\n        self,\n        state: dict[str, Any],\n        load_context: LoadContext,\n        trusted: Optional[Sequence[str]] = None,\n    ) -> None:\n        super().__init__(state, load_context, trusted, memoize=False)")]),
    ("shr-copy", {"C06"}, [(G, "    content = [get_state(value, save_context) for value in obj]\n\n    res[\"content\"] = content\n    return res\n\n\nclass ListNode", "    import copy\n    content = [get_state(copy.copy(value), save_context) for value in obj]\n\n    res[\"content\"] = content\n    return res\n\n\nclass ListNode")]),
    ("shr-ctx-global", {"C06"}, [(PE, "        save_context = SaveContext(zip_file=zip_file)\n        state = get_state(obj, save_context)\n        save_context.clear_memo()\n", "        save_context = SaveContext(zip_file=zip_file)\n        save_context.memo.clear()\n        state = get_state(obj, save_context)\n") if False else (U, "    def clear_memo(self) -> None:\n        self.memo.clear()\n", "    def clear_memo(self) -> None:\n        self.memo.clear()\n"), (U, "    __id__ = save_context.memoize(obj=value)\n", "    __id__ = save_context.memoize(obj=type(value))\n")]),
    ("shr-load-getid", {"C06"}, [(U, "    def get_object(self, id: int) -> Any:\n        return self.memo.get(id)\n", "    def get_object(self, id: int) -> Any:\n        return self.memo.pop(id)\n") if False else (U, "        self.memo[id] = obj\n", "        self.memo.setdefault(obj.class_name, obj)\n")]),
    # C08
    ("pro-strict", {"C08"}, [(AU, "        key_new = (loader, PROTOCOL)\n", "        key_new = (loader, protocol + 1)\n")]),
    ("pro-smaller", {"C08"}, [(AU, "    key = (loader, protocol)\n\n    if key in NODE_TYPE_MAPPING:\n        node_cls = NODE_TYPE_MAPPING[key]\n", "    key = (loader, max([p for (l, p) in NODE_TYPE_MAPPING if l == loader and p <= protocol], default=protocol))\n\n    if key in NODE_TYPE_MAPPING:\n        node_cls = NODE_TYPE_MAPPING[key]\n")]),
    ("pro-unreg", {"C08"}, [(PE, "modules.extend([\".old._general_v0\", \".old._numpy_v0\", \".old._numpy_v1\"])", "modules.extend([\".old._general_v0\", \".old._numpy_v0\"])")]),
    ("pro-wrongnum", {"C08"}, [(V1R, "PROTOCOL = 1\n", "PROTOCOL = 0\n")]),
    ("pro-const", {"C08"}, [(PE, "        load_context = LoadContext(src=zip_file, protocol=schema[\"protocol\"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n\n\ndef get_untrusted", "        from ._protocol import PROTOCOL\n        load_context = LoadContext(src=zip_file, protocol=PROTOCOL)\n        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n\n\ndef get_untrusted")]),
    ("pro-max", {"C08"}, [(PE, "        load_context = LoadContext(src=input_zip, protocol=schema[\"protocol\"])", "        load_context = LoadContext(src=input_zip, protocol=max(1, schema[\"protocol\"]))")]),
    ("pro-rename", {"C08"}, [(G, "\"func\": func,", "\"function\": func,") if False else (NP, "\"seed_seq\": seed_seq_state,", "\"seed_sequence\": seed_seq_state,") if False else (G, "kv", "kv") if False else (G, "\"attrs\": get_state(", "\"args\": get_state("), (G, "state[\"attrs\"]", "state[\"args\"]")]),
    ("pro-keyerror", {"C08"}, [(AU, "        except KeyError:\n            # If we", "        except (KeyError, TypeError):\n            # If we"), (AU, "            raise TypeError(\n                f\" Can't find loader {state['__loader__']}", "            raise ValueError(\n                f\" Can't find loader {state['__loader__']}")]),
    ("pro-fallback", {"C08"}, [(AU, "            # wrong.\n", "            # wrong.\n            if protocol < PROTOCOL:\n                return NODE_TYPE_MAPPING[(\"ObjectNode\", PROTOCOL)](state, load_context, trusted=trusted)\n")]),
    ("pro-v1-state", {"C08"}, [(V1R, "        bit_generator.state = bit_generator_state\n", "        bit_generator.state[\"state\"] = bit_generator_state[\"state\"]\n")]),
    ("pro-v1-seed", {"C08"}, [(V1R, "state[\"content\"][\"bit_generator\"], load_context", "state[\"content\"][\"bit_generator_state\"], load_context")]),
    ("pro-v0-swap", {"C08"}, [(V0F, "            self.children[\"content\"][\"module_path\"],\n            self.children[\"content\"][\"function\"],\n        )\n\n    def", "            self.module_name,\n            self.children[\"content\"][\"function\"],\n        )\n\n    def")]),
    ("pro-hardmask", {"C08"}, [(NP, "            if key in state[\"content\"]:\n", "            if key == \"hardmask\" or key in state[\"content\"]:\n")]),
    ("pro-loader-typo", {"C08", "C12"}, [(G, "\"__loader__\": \"SetNode\"", "\"__loader__\": \"FrozenSetNode\"")]),
]

MC = "skops/card/_model_card.py"
NINE, TEN = {"C09"}, {"C10"}
BUGS += [
    ("card-split-plain", NINE, [(MC, "re.split(r\"(?<!\\\\)/\", key)", "key.split(\"/\")")]),
    ("card-nostrip", NINE, [(MC, "parts = (part.strip() for part in", "parts = (part for part in")]),
    ("card-rstrip", NINE, [(MC, "parts = (part.strip() for part in", "parts = (part.rstrip() for part in")]),
    ("card-nounescape", NINE, [(MC, "return [part.replace(\"\\\\/\", \"/\") for part in parts]", "return list(parts)")]),
    ("card-unescape-first", NINE, [(MC, "(part.strip() for part in re.split(r\"(?<!\\\\)/\", key))", "(part.strip() for part in re.split(\"/\", key.replace(\"\\\\/\", \"/\")))")]),
    ("card-unescape-once", NINE, [(MC, "part.replace(\"\\\\/\", \"/\")", "part.replace(\"\\\\/\", \"/\", 1)")]),
    ("card-lose-subs", NINE, [(MC, "            new_section.subsections = old_section.subsections\n", "")]),
    ("card-move-end", NINE, [(MC, "            new_section.subsections = old_section.subsections\n", "            new_section.subsections = old_section.subsections\n            del section[leaf_node_name]\n")]),
    ("card-append-content", NINE, [(MC, "new_section = Section(title=leaf_node_name, content=val, folded=folded)", "new_section = Section(title=leaf_node_name, content=val, folded=folded)\n            if leaf_node_name in section:\n                new_section.content = section[leaf_node_name].content + val")]),
    ("card-ancestor-content", NINE, [(MC, "entry = Section(title=subsection_name, content=\"\")", "entry = Section(title=subsection_name, content=subsection_name)")]),
    ("card-select-create", NINE, [(MC, "parent_section = self._select(subsection_names, create=False)\n        return", "parent_section = self._select(subsection_names)\n        return")]),
    ("card-delete-create", NINE, [(MC, "parent_section = self._select(subsection_names, create=False)\n        del", "parent_section = self._select(subsection_names)\n        del")]),
    ("card-delete-pop", NINE, [(MC, "del parent_section[leaf_node_name]", "parent_section.pop(leaf_node_name, None)")]),
    ("card-delete-clear", NINE, [(MC, "del parent_section[leaf_node_name]", "if parent_section[leaf_node_name].subsections:\n            parent_section[leaf_node_name].content = \"\"\n        else:\n            del parent_section[leaf_node_name]")]),
    ("card-select-none", NINE, [(MC, "return parent_section[leaf_node_name]\n\n    def delete", "return parent_section.get(leaf_node_name)\n\n    def delete")]),
    ("card-create-dropped", NINE, [(MC, "                section[subsection_name] = entry\n                section = entry.subsections", "                section = entry.subsections\n                if len(subsection_names) < 2:\n                    self._data[subsection_name] = entry")]),
    ("card-parent-lost", NINE, [(MC, "            if section_maybe is not None:\n", "            if section_maybe is not None and section_maybe.subsections:\n")]),
    ("card-section-select-first", NINE, [(MC, "            section = section.subsections[section_name]\n        return section", "            section = section.subsections[section_name]\n            break\n        return section")]),
    ("card-empty-select", NINE, [(MC, "        if not all(bool(name) for name in section_names):\n            msg = f\"Section name cannot be empty but got '{key}'\"\n            raise KeyError(msg)\n\n        section: Section", "        section_names = [name for name in section_names if name]\n\n        section: Section")]),
    ("card-conflict", NINE, [(MC, "if new_section.subsections and (", "if old_section.subsections and (")]),
    ("card-folded-kept", NINE, [(MC, "            new_section.subsections = old_section.subsections\n", "            new_section.subsections = old_section.subsections\n            new_section.folded = old_section.folded\n")]),

    ("ren-depth", TEN, [(MC, "                    depth=depth + 1,", "                    depth=depth,")]),
    ("ren-folded-subs", TEN, [(MC, "            if section.subsections and not section.folded:\n                yield from self._generate_content", "            if section.subsections:\n                yield from self._generate_content")]),
    ("ren-hidden-subs", TEN, [(MC, "            if not section.visible:\n                continue", "            if not section.visible:\n                yield from self._generate_content(section.subsections, depth=depth + 1)\n                continue")]),
    ("ren-toc-folded", TEN, [(MC, "            if val.subsections and not val.folded:", "            if val.subsections:")]),
    ("ren-toc-key", TEN, [(MC, "            title = val.title\n            yield title, level", "            title = key\n            yield title, level")]),
    ("ren-toc-visible", TEN, [(MC, "            if not getattr(val, \"visible\", True):\n                continue\n", "")]),
    ("ren-toc-indent", TEN, [(MC, "{'  ' * level}- {title}", "{'  ' * min(level, 4)}- {title}")]),
    ("ren-toc-level", TEN, [(MC, "level=level + 1,\n                )\n\n    def get_toc", "level=level,\n                )\n\n    def get_toc")]),
    ("ren-hash-cap", TEN, [(MC, "title = f\"{depth * '#'} {section.title}\"", "title = f\"{min(depth, 6) * '#'} {section.title}\"")]),
    ("ren-hash-key", TEN, [(MC, "for section in data.values():\n            if not section.visible", "for key, section in data.items():\n            if not section.visible"), (MC, "title = f\"{depth * '#'} {section.title}\"", "title = f\"{depth * '#'} {key}\"")]),
    ("ren-save-encoding", TEN, [(MC, "open(path, \"w\", encoding=\"utf-8\")", "open(path, \"w\")")]),
    ("ren-save-append", TEN, [(MC, "open(path, \"w\", encoding=\"utf-8\")", "open(path, \"a\", encoding=\"utf-8\")")]),
    ("ren-save-join", TEN, [(MC, "f.write(\"\\n\".join(self._generate_card(destination_path=destination_path)))", "f.write(\"\\n\\n\".join(self._generate_card(destination_path=destination_path)))")]),
    ("ren-save-replace", TEN, [(MC, "open(path, \"w\", encoding=\"utf-8\")", "open(path, \"w\", encoding=\"utf-8\", errors=\"ignore\")")]),
    ("ren-details-table", TEN, [(MC, "val = wrap_as_details(table, folded=self.folded)", "val = table")]),
    ("ren-details-plot", TEN, [(MC, "val = wrap_as_details(text, folded=self.folded)", "val = wrap_as_details(text, folded=not self.content and self.folded)")]),
    ("ren-order", TEN, [(MC, "            yield section.format()\n", "            if not section.subsections:\n                yield section.format()\n"), (MC, "                    destination_path=destination_path,\n                )\n\n    def _iterate_content", "                    destination_path=destination_path,\n                )\n                yield section.format()\n\n    def _iterate_content")]),
    ("ren-content-raw", TEN, [(MC, "            yield section.format()\n", "            yield section.content\n")]),
    ("ren-empty-skip", TEN, [(MC, "            if not section.visible:\n                continue", "            if not section.visible or not (section.content or section.subsections):\n                continue")]),
]

BUGS += [
    ("ren-cache", TEN, [(MC, "        return \"\\n\".join(self._generate_card())\n", "        if not hasattr(self, \"_text\"):\n            self._text = \"\\n\".join(self._generate_card())\n        return self._text\n")]),
    ("ren-cache-format", TEN, [(MC, "    def format(self) -> str:\n        return wrap_as_details(self.content, folded=self.folded)", "    @cached_property\n    def _formatted(self):\n        return wrap_as_details(self.content, folded=self.folded)\n\n    def format(self) -> str:\n        return self._formatted")]),
    ("ren-cache-clear", TEN, [(MC, "        return \"\\n\".join(self._generate_card())\n", "        if getattr(self, \"_text\", None) is None:\n            self._text = \"\\n\".join(self._generate_card())\n        return self._text\n"), (MC, "        section[leaf_node_name] = new_section\n", "        section[leaf_node_name] = new_section\n        self._text = None\n")]),
]

UP = "skops/cli/_update.py"
CV = "skops/cli/_convert.py"
EP = "skops/cli/entrypoint.py"
S16, S17 = {"C16"}, {"C17"}
TMPD = "    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:\n        tmp_output_file = Path(tmp_dir) / f\"{output_path.name}.tmp\"\n        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n"
BUGS += [
    ("upd-move", S16, [(UP, "tempfile.TemporaryDirectory(dir=output_path.parent)", "tempfile.TemporaryDirectory()"), (UP, "os.replace(tmp_output_file, output_path)", "shutil.move(str(tmp_output_file), str(output_path))"), (UP, "import os\n", "import os\nimport shutil\n")]),
    ("upd-tmp-default", S16, [(UP, "tempfile.TemporaryDirectory(dir=output_path.parent)", "tempfile.TemporaryDirectory()")]),
    ("upd-tmp-inputdir", S16, [(UP, "tempfile.TemporaryDirectory(dir=output_path.parent)", "tempfile.TemporaryDirectory(dir=Path(input_file).parent)")]),
    ("upd-tmp-cwd", S16, [(UP, "tempfile.TemporaryDirectory(dir=output_path.parent)", "tempfile.TemporaryDirectory(dir=Path.cwd())")]),
    ("upd-direct", S16, [(UP, TMPD, "    dump(input_model, output_path)\n")]),
    ("upd-copy", S16, [(UP, "os.replace(tmp_output_file, output_path)", "shutil.copyfile(tmp_output_file, output_path)"), (UP, "import os\n", "import os\nimport shutil\n")]),
    ("upd-bytes", S16, [(UP, "os.replace(tmp_output_file, output_path)", "output_path.write_bytes(tmp_output_file.read_bytes())")]),
    ("upd-unlink-first", S16, [(UP, "        os.replace(tmp", "        if output_path.exists():\n            output_path.unlink()\n        os.replace(tmp")]),
    ("upd-backup", S16, [(UP, "        os.replace(tmp", "        if inplace:\n            os.replace(output_path, str(output_path) + \".bak\")\n        os.replace(tmp")]),
    ("upd-guard-ne", S16, [(UP, "if input_file_schema[\"protocol\"] == PROTOCOL:", "if input_file_schema[\"protocol\"] == PROTOCOL and output_file is None:")]),
    ("upd-guard-newer", S16, [(UP, "    if input_file_schema[\"protocol\"] > PROTOCOL:", "    if input_file_schema[\"protocol\"] > PROTOCOL + 1:")]),
    ("upd-guard-off", S16, [(UP, "    if input_file_schema[\"protocol\"] > PROTOCOL:", "    if input_file_schema[\"protocol\"] >= PROTOCOL - 1:")]),
    ("upd-guard-version", S16, [(UP, "    if input_file_schema[\"protocol\"] > PROTOCOL:", "    if input_file_schema.get(\"_skops_version\", \"\") > \"1\":")]),
    ("upd-exists", S16, [(UP, "        os.replace(tmp_output_file, output_path)", "        if not output_path.exists() or inplace:\n            os.replace(tmp_output_file, output_path)")]),
    ("upd-untrusted", S16, [(UP, "load(input_file, trusted=get_untrusted_types(file=input_file))", "load(input_file)")]),
    ("upd-trusted-some", S16, [(UP, "trusted=get_untrusted_types(file=input_file))", "trusted=[t for t in get_untrusted_types(file=input_file) if t.startswith(\"sklearn\")])")]),
    ("upd-mkdtemp", S16, [(UP, "    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:\n        tmp_output_file = Path(tmp_dir) / f\"{output_path.name}.tmp\"\n        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n", "    tmp_dir = tempfile.mkdtemp(dir=output_path.parent)\n    tmp_output_file = Path(tmp_dir) / f\"{output_path.name}.tmp\"\n    dump(input_model, tmp_output_file)\n    os.replace(tmp_output_file, output_path)\n    os.rmdir(tmp_dir)\n")]),
    ("upd-namedtemp", S16, [(UP, TMPD, "    with tempfile.NamedTemporaryFile(dir=output_path.parent, delete=False) as tmp:\n        dump(input_model, tmp)\n        os.replace(tmp.name, output_path)\n")]),
    ("upd-sibling", S16, [(UP, TMPD, "    tmp_output_file = output_path.with_name(output_path.name + \".tmp\")\n    with open(tmp_output_file, \"wb\") as f:\n        dump(input_model, f)\n    os.replace(tmp_output_file, output_path)\n")]),
    ("upd-inplace-input", S16, [(UP, "    output_path = Path(output_file)\n", "    output_path = Path(input_file) if inplace or Path(output_file).exists() else Path(output_file)\n")]),
    ("upd-out-name", S16, [(UP, "    output_path = Path(output_file)\n", "    output_path = Path(input_file).parent / Path(output_file).name\n")]),
    ("upd-out-suffix", S16, [(UP, "    output_path = Path(output_file)\n", "    output_path = Path(output_file).with_suffix(\".skops\")\n")]),
    ("upd-both", S16, [(UP, "        if output_file is None:\n            output_file = input_file\n        else:\n            raise ValueError(", "        if output_file is None or Path(output_file) == Path(input_file):\n            output_file = input_file\n        elif False:\n            raise ValueError(")]),
    ("upd-both-late", S16, [(UP, "    output_file = Path(parsed_args.output_file) if parsed_args.output_file else None\n", "    output_file = Path(parsed_args.output_file) if parsed_args.output_file and not parsed_args.inplace else None\n")]),
    ("upd-main-inplace", S16, [(UP, "    inplace = parsed_args.inplace\n", "    inplace = parsed_args.inplace or not output_file\n")]),
    ("upd-arg-default", S16, [(UP, "        help=\"Specify the output file name for the updated skops file.\",\n        default=None", "        help=\"Specify the output file name for the updated skops file.\",\n        default=\"model.skops\"")]),
    ("upd-arg-inplace", S16, [(UP, "        action=\"store_true\",\n", "        action=\"store_true\",\n        default=True,\n")]),
    ("upd-mutate", S16, [(UP, "        dump(input_model, tmp_output_file)", "        input_model._updated = True\n        dump(input_model, tmp_output_file)")]),
    ("upd-delete-input", S16, [(UP, "    logger.info(f\"Updated", "    if not inplace and Path(input_file).suffix == \".tmp\":\n        os.remove(input_file)\n    logger.info(f\"Updated")]),
    ("upd-entry", S16, [(EP, "\"update\": {\n            \"method\": skops.cli._update.main", "\"update\": {\n            \"method\": skops.cli._convert.main")]),

    ("cnv-early", S17, [(CV, "    with open(input_file, \"rb\") as f:\n        obj = pickle.load(f)\n    skops_dump = dumps(obj)\n", "    with open(output_file, \"wb\"):\n        pass\n    with open(input_file, \"rb\") as f:\n        obj = pickle.load(f)\n    skops_dump = dumps(obj)\n")]),
    ("cnv-append", S17, [(CV, "open(output_file, \"wb\")", "open(output_file, \"ab\")")]),
    ("cnv-rplus", S17, [(CV, "open(output_file, \"wb\")", "open(output_file, \"r+b\" if os.path.exists(output_file) else \"wb\")")]),
    ("cnv-excl", S17, [(CV, "open(output_file, \"wb\")", "open(output_file, \"xb\")")]),
    ("cnv-default-dir", S17, [(CV, "pathlib.Path.cwd() / f\"{file_name}.skops\"", "pathlib.Path(input_file).with_suffix(\".skops\")")]),
    ("cnv-default-split", S17, [(CV, "file_name = pathlib.Path(input_file).stem", "file_name = pathlib.Path(input_file).name.split(\".\")[0]")]),
    ("cnv-default-suffix", S17, [(CV, "pathlib.Path.cwd() / f\"{file_name}.skops\"", "(pathlib.Path.cwd() / file_name).with_suffix(\".skops\")")]),
    ("cnv-out-name", S17, [(CV, "    _convert_file(\n", "    output_file = pathlib.Path.cwd() / pathlib.Path(output_file).name\n    _convert_file(\n")]),
    ("cnv-warn-inverted", S17, [(CV, "    if not untrusted_types:", "    if untrusted_types:")]),
    ("cnv-warn-trunc", S17, [(CV, "\", \".join(untrusted_types)", "\", \".join(untrusted_types[:10])")]),
    ("cnv-warn-level", S17, [(CV, "        logger.warning(\n", "        logger.info(\n")]),
    ("cnv-warn-many", S17, [(CV, "    if not untrusted_types:", "    if len(untrusted_types) <= 1:")]),
    ("cnv-warn-always", S17, [(CV, "        logger.info(f\"No unknown", "        logger.warning(f\"No unknown")]),
    ("cnv-warn-short", S17, [(CV, "\", \".join(untrusted_types)", "\", \".join(t.rsplit(\".\", 1)[-1] for t in untrusted_types)")]),
    ("cnv-level", S17, [("skops/cli/_utils.py", "logging.WARNING, logging.INFO", "logging.ERROR, logging.INFO")]),
    ("cnv-mutate", S17, [(CV, "    skops_dump = dumps(obj)\n", "    obj.converted = True\n    skops_dump = dumps(obj)\n")]),
    ("cnv-remove", S17, [(CV, "        out_file.write(skops_dump)\n", "        out_file.write(skops_dump)\n    if not untrusted_types:\n        os.remove(input_file)\n")]),
    ("cnv-refuse", S17, [(CV, "    with open(output_file, \"wb\") as out_file:\n        logger", "    if len(untrusted_types) > 10:\n        raise ValueError(\"too many\")\n    with open(output_file, \"wb\") as out_file:\n        logger")]),
    ("cnv-skip", S17, [(CV, "    with open(output_file, \"wb\") as out_file:\n        logger", "    if os.path.exists(output_file):\n        return\n    with open(output_file, \"wb\") as out_file:\n        logger")]),
    ("cnv-arg", S17, [(CV, "        \"-o\",\n        \"--output-file\",\n", "        \"-o\",\n        \"--output\",\n")]),
]

C14 = {"C14"}
CELL = "            values = [re.sub(r\"\\r\\n?|\\n\", \"<br />\", str(value)) for value in values]\n"
NAME = "            name = re.sub(r\"\\r\\n?|\\n\", \"<br />\", str(key))\n"
BUGS += [
    ("bld-lf-only", C14, [(MC, CELL, "            values = [str(value).replace(\"\\n\", \"<br />\") for value in values]\n")]),
    ("bld-crlf-only", C14, [(MC, CELL, "            values = [re.sub(r\"\\r?\\n\", \"<br />\", str(value)) for value in values]\n")]),
    ("bld-crlf-double", C14, [(MC, CELL, "            values = [re.sub(r\"[\\r\\n]\", \"<br />\", str(value)) for value in values]\n")]),
    ("bld-crlf-merge", C14, [(MC, CELL, "            values = [re.sub(r\"[\\r\\n]+\", \"<br />\", str(value)) for value in values]\n")]),
    ("bld-splitlines", C14, [(MC, CELL, "            values = [\"<br />\".join(str(value).split()) for value in values]\n")]),
    ("bld-header-raw", C14, [(MC, NAME, "            name = str(key)\n")]),
    ("bld-header-title", C14, [(MC, NAME, NAME.rstrip("\n") + ".capitalize()\n")]),
    ("bld-repr", C14, [(MC, CELL, CELL.replace("str(value)", "repr(value)"))]),
    ("bld-float", C14, [(MC, CELL, CELL.replace("str(value)", "(f\"{value:.6g}\" if isinstance(value, float) else str(value))"))]),
    ("bld-str-only", C14, [(MC, CELL, "            values = [re.sub(r\"\\r\\n?|\\n\", \"<br />\", value) if isinstance(value, str) else value for value in values]\n"), (MC, "        table = table.get_string()\n", "        table.float_format = \".3\"\n        table = table.get_string()\n")]),
    ("bld-none-blank", C14, [(MC, CELL, CELL.replace("str(value)", "str(value or \"\")"))]),
    ("bld-none-blank2", C14, [(MC, CELL, CELL.replace("str(value)", "(\"\" if value is None else str(value))"))]),
    ("bld-shorten", C14, [(MC, CELL, CELL.replace("str(value)", "str(value)[:200]"))]),
    ("bld-maxwidth", C14, [(MC, "        table.set_style(TableStyle.MARKDOWN)\n", "        table.set_style(TableStyle.MARKDOWN)\n        table.max_width = 80\n")]),
    ("bld-style-last", C14, [(MC, "        table.set_style(TableStyle.MARKDOWN)\n", "        table.set_style(TableStyle.MARKDOWN)\n        if self._is_pandas_df:\n            table.set_style(TableStyle.DEFAULT)\n")]),
    ("bld-sortby", C14, [(MC, "table = table.get_string()", "table = table.get_string(sortby=table.field_names[0])")]),
    ("bld-end", C14, [(MC, "table = table.get_string()", "table = table.get_string(end=30)")]),
    ("bld-df-values", C14, [(MC, "        for key, values in self.table.items():", "        columns = self.table.items()\n        if self._is_pandas_df:\n            columns = zip(self.table.columns, zip(*self.table.values))\n        for key, values in columns:")]),
    ("bld-df-round", C14, [(MC, "        for key, values in self.table.items():", "        source = self.table.round(4) if self._is_pandas_df else self.table\n        for key, values in source.items():")]),
    ("bld-df-fillna", C14, [(MC, "        for key, values in self.table.items():", "        source = self.table.fillna(\"\") if self._is_pandas_df else self.table\n        for key, values in source.items():")]),
    ("bld-df-head", C14, [(MC, "                title=title, content=description, table=val, folded=folded\n", "                title=title,\n                content=description,\n                table=val.head(10) if hasattr(val, \"head\") else val,\n                folded=folded,\n")]),
    ("bld-sorted-cols", C14, [(MC, "        for key, values in self.table.items():", "        for key, values in sorted(self.table.items(), key=str):")]),
    ("bld-rows", C14, [(MC, "            table.add_column(name, values)\n", "            table.add_column(name, values[:20])\n")]),
    ("bld-html", C14, [(MC, CELL, CELL.replace("str(value)", "html.escape(str(value))")), (MC, "import re\n", "import html\nimport re\n")]),
    ("bld-strip", C14, [(MC, CELL, CELL.replace("str(value)", "str(value).strip(\"*_\")"))]),

    ("bld-met-replace", C14, [(MC, "self._metrics.update(kwargs)", "self._metrics = dict(kwargs)")]),
    ("bld-met-oldwins", C14, [(MC, "self._metrics.update(kwargs)", "self._metrics = {**kwargs, **self._metrics}")]),
    ("bld-met-order", C14, [(MC, "self._metrics.update(kwargs)", "for key, val in kwargs.items():\n            self._metrics.pop(key, None)\n            self._metrics[key] = val")]),
    ("bld-met-sorted", C14, [(MC, "zip(*self._metrics.items())", "zip(*sorted(self._metrics.items()))")]),
    ("bld-met-falsy", C14, [(MC, "self._metrics.update(kwargs)", "self._metrics.update({k: v for k, v in kwargs.items() if v is not None})")]),
    ("bld-met-setdefault", C14, [(MC, "self._metrics.update(kwargs)", "for key, val in kwargs.items():\n            if not self._metrics.get(key):\n                self._metrics[key] = val")]),
    ("bld-met-persection", C14, [(MC, "metrics=self._metrics)", "metrics=kwargs)"), (MC, "zip(*self._metrics.items())", "zip(*metrics.items())"), (MC, "        if self._metrics:\n", "        if metrics:\n")]),
    ("bld-met-early", C14, [(MC, "        self._metrics.update(kwargs)\n", "        if not kwargs:\n            return self\n        self._metrics.update(kwargs)\n")]),
    ("bld-met-set", C14, [(MC, "table = {\n                key: list(val) for key, val in zip([\"Metric\", \"Value\"], data_transposed)\n            }", "table = {\n                key: list(dict.fromkeys(val)) for key, val in zip([\"Metric\", \"Value\"], data_transposed)\n            }")]),

    ("bld-hyp-shallow", C14, [(MC, "model.get_params(deep=True)", "model.get_params(deep=False)")]),
    ("bld-hyp-private", C14, [(MC, "params = model.get_params(deep=True)\n", "params = {\n            k: v for k, v in model.get_params(deep=True).items() if not k.startswith(\"_\")\n        }\n")]),
    ("bld-hyp-none", C14, [(MC, "params = model.get_params(deep=True)\n", "params = model.get_params(deep=True)\n        params = {k: v for k, v in params.items() if v is not None}\n")]),
    ("bld-hyp-values", C14, [(MC, "\"Value\": list(params.values())}", "\"Value\": sorted(params.values(), key=str)}")]),

    ("bld-title-plain", C14, [(MC, "            title = split_subsection_names(section_name)[-1]\n            section = PlotSection(", "            title = section_name\n            section = PlotSection(")]),
    ("bld-title-first", C14, [(MC, "            title = split_subsection_names(key)[-1]\n            section = TableSection(", "            title = split_subsection_names(key)[0]\n            section = TableSection(")]),
    ("bld-met-title", C14, [(MC, "        title = split_subsection_names(section_name)[-1]\n        section = TableSection(title=title, content=description, table=table)\n", "        section = TableSection(title=section_name, content=description, table=table)\n")]),
    ("bld-plot-path", C14, [(MC, "        title = split_subsection_names(section_name)[-1]\n        section = Section(title=title, content=content)\n        self._add_single(section_name, section)", "        title = split_subsection_names(section_name)[-1]\n        section = Section(title=title, content=content)\n        self._add_single(title, section)")]),
    ("bld-alt-leak", C14, [(MC, "                alt_text=alt_text or title,\n", "                alt_text=alt_text,\n"), (MC, "            section = PlotSection(\n", "            alt_text = alt_text or title\n            section = PlotSection(\n")]),
    ("bld-alt-path", C14, [(MC, "                alt_text=alt_text or title,\n", "                alt_text=alt_text or \"\",\n")]),
    ("bld-alt-name", C14, [(MC, "                alt_text=alt_text or title,\n", "                alt_text=alt_text or section_name,\n")]),
    ("bld-alt-stem", C14, [(MC, "                alt_text=alt_text or title,\n", "                alt_text=alt_text or Path(plot_path).stem,\n")]),
    ("bld-shared", C14, [(MC, "        description = description or \"\"\n        for key, val in kwargs.items():\n            title = split_subsection_names(key)[-1]\n            section = TableSection(\n                title=title, content=description, table=val, folded=folded\n            )\n            self._add_single(key, section)", "        description = description or \"\"\n        section = None\n        for key, val in kwargs.items():\n            title = split_subsection_names(key)[-1]\n            if section is None:\n                section = TableSection(\n                    title=title, content=description, table=val, folded=folded\n                )\n            else:\n                section.title, section.table = title, val\n            self._add_single(key, section)")]),
    ("bld-desc-once", C14, [(MC, "            self._add_single(key, section)\n        return self\n\n    def add_metrics", "            self._add_single(key, section)\n            description = \"\"\n        return self\n\n    def add_metrics")]),
    ("bld-early-return", C14, [(MC, "            self._add_single(key, section)\n        return self\n\n    def add_metrics", "            self._add_single(key, section)\n            if folded:\n                return self\n        return self\n\n    def add_metrics")]),
    ("bld-link", C14, [(MC, "text = f\"![{alt_text}]({self.path})\"", "text = f\"![{alt_text}]({Path(self.path).name})\"")]),
    ("bld-reversed", C14, [(MC, "        for section_name, plot_path in kwargs.items():", "        for section_name, plot_path in sorted(kwargs.items()):")]),

    # ---- C15
    ("prs-join-path", C15, [(PP, "        *parents, section_name = section_trace\n        cur_section = Section(title=section_name, content=\"\")\n        siblings = card._select(parents)\n", "        return card._add_single(\"/\".join(section_trace), \"\")\n        siblings = {}\n        cur_section = None\n")]),
    ("prs-overwrite", C15, [(PP, "        while key in siblings:\n", "        while False:\n")]),
    ("prs-reuse", C15, [(PP, "        cur_section = Section(title=section_name, content=\"\")\n        siblings = card._select(parents)\n", "        siblings = card._select(parents)\n        if section_name in siblings:\n            return siblings[section_name]\n        cur_section = Section(title=section_name, content=\"\")\n")]),
    ("prs-title-num", C15, [(PP, "        siblings[key] = cur_section\n", "        cur_section.title = key\n        siblings[key] = cur_section\n")]),
    ("prs-trace-key", C15, [(PP, "        section_trace[-1] = key\n", "")]),
    ("prs-level", C15, [(PP, "section_levels[-1] >= level:", "section_levels[-1] > level:")]),
    ("prs-level-eq", C15, [(PP, "while section_levels and section_levels[-1] >= level:", "while section_levels and section_levels[-1] == level:")]),
    ("prs-level-if", C15, [(PP, "while section_levels and section_levels[-1] >= level:", "if section_levels and section_levels[-1] >= level:")]),
    ("prs-level-base", C15, [(PP, "section_trace[: len(section_levels)] + [res]", "section_trace[: level - 1] + [res]")]),
    ("prs-level-max", C15, [(PP, "                section_levels.append(level)\n", "                section_levels.append(min(level, 4))\n")]),
    ("prs-title-strip", C15, [(PP, "                res = self._post_process(content)\n", "                res = self._post_process(content).strip(\"# \")\n")]),
    ("prs-title-slash", C15, [(PP, "                res = self._post_process(content)\n", "                res = self._post_process(content).replace(\"/\", \"-\")\n")]),
    ("prs-title-case", C15, [(PP, "Section(title=section_name, content=\"\")", "Section(title=section_name.capitalize(), content=\"\")")]),
    ("prs-content-order", C15, [(PP, "section.content + \"\\n\\n\" + content", "content + \"\\n\\n\" + section.content")]),
    ("prs-content-sep", C15, [(PP, "section.content + \"\\n\\n\" + content", "section.content + \"\\n\" + content")]),
    ("prs-content-over", C15, [(PP, "            section.content = section.content + \"\\n\\n\" + content", "            section.content = content")]),
    ("prs-content-dup", C15, [(PP, "        elif isinstance(section.content, str):\n", "        elif content in section.content:\n            pass\n        elif isinstance(section.content, str):\n")]),
    ("prs-content-strip", C15, [(PP, "res = self._post_process(self.mapping(item))", "res = self._post_process(self.mapping(item)).strip()")]),
    ("prs-blank", C15, [(PP, "        res = res.replace(\"\\xa0\", \" \")\n", "        res = \" \".join(res.replace(\"\\xa0\", \" \").split(\" \"))\n        res = res.replace(\"  \", \" \")\n")]),
    ("prs-skip-raw", C15, [(PP, "            else:\n                res = self._post_process(self.mapping(item))\n", "            elif item[\"t\"] != \"RawBlock\" or section_levels:\n                if item[\"t\"] == \"RawBlock\" and item[\"c\"][1].startswith(\"---\"):\n                    continue\n                res = self._post_process(self.mapping(item))\n")]),
    ("prs-card-shared", C15, [(PP, "        self.source = source\n", "        self.source = source\n        self.card = Card(None, template=None)\n"), (PP, "        card = Card(None, template=None)\n", "        card = self.card\n")]),
    ("prs-top-content", C15, [(PP, "                self._add_content(res, section=section)", "                self._add_content(res, section=next(iter(card._data.values()), section))")]),
    ("prs-hidden", C15, [(PP, "Section(title=section_name, content=\"\")", "Section(title=section_name, content=\"\", visible=len(parents) < 3)")]),
    ("prs-template", C15, [(PP, "        card = Card(None, template=None)\n", "        card = Card(None)\n")]),

    ("mkd-finally", C15, [(MU, "        try:\n            yield\n        finally:\n            self._indent_trace.pop(-1)\n", "        yield\n        self._indent_trace.pop(-1)\n")]),
    ("mkd-noindent", C15, [(MU, "sum(self._indent_trace[:-1])", "sum(self._indent_trace[:0])")]),
    ("mkd-indent-const", C15, [(MU, "sum(self._indent_trace[:-1])", "2 * len(self._indent_trace[:-1])")]),
    ("mkd-class-trace", C20, [(MU, "        self._indent_trace = []\n", ""), (MU, "    def __init__(self):\n", "    _indent_trace: list = []\n\n    def __init__(self):\n")]),
    ("mkd-figure-mutate", C15, [(MU, "        attr, image_caption, (dest, _) = body[\"c\"][0][\"c\"]\n        return self._image((attr, image_caption, (dest, \"fig:\")))\n", "        plain_fig = body[\"c\"][0][\"c\"]\n        plain_fig[2][1] = \"fig:\"\n        return self._image(plain_fig)\n")]),
    ("mkd-str", C15, [(MU, "        return value.replace(\"\\\\\", \"\\\\\\\\\")\n", "        return value\n")]),
    ("mkd-str-html", C15, [(MU, "        return value.replace(\"\\\\\", \"\\\\\\\\\")\n", "        return value.replace(\"\\\\\", \"\\\\\\\\\").replace(\"<\", \"\")\n")]),
    ("mkd-strong-first", C15, [(MU, "        parts = [\"**\"]\n        parts += [self.__call__(subitem) for subitem in value]\n", "        parts = [\"**\"]\n        parts += [self.__call__(subitem) for subitem in value[:1]]\n")]),
    ("mkd-emph-strong", C15, [(MU, "        parts = [\"_\"]\n", "        parts = [\"__\"]\n")]),
    ("mkd-link-src", C15, [(MU, "return f\"[{txt_formatted}]({src})\"", "return f\"[{txt_formatted}]({src.split('#')[0]})\"")]),
    ("mkd-link-text", C15, [(MU, "return f\"[{txt_formatted}]({src})\"", "return f\"[{src}]({src})\"")]),
    ("mkd-ordered-start", C15, [(MU, "enumerate(items, start=start)", "enumerate(items, start=1)")]),
    ("mkd-ordered-spaces", C15, [(MU, "        with self._indented(spaces=3):", "        with self._indented(spaces=2):")]),
    ("mkd-softbreak", C15, [(MU, "        return \"\\n\" + self._get_indent(incr=incr)\n", "        return \"\\n\"\n")]),
    ("mkd-softbreak-none", C15, [(MU, "        return \"\\n\" + self._get_indent(incr=incr)\n", "        return \"\"\n")]),
    ("mkd-quote-lines", C15, [(MU, "            content = content.replace(\"\\n\", \"\\n> \")\n", "")]),
    ("mkd-quote-last", C15, [(MU, "            parts.append(content)\n\n        # add a quote symbol to the very start\n", "        parts.append(content)\n\n        # add a quote symbol to the very start\n")]),
    ("mkd-quoted", C15, [(MU, "{\"DoubleQuote\": '\"', \"SingleQuote\": \"'\"}", "{\"DoubleQuote\": '\"', \"SingleQuote\": '\"'}")]),
    ("mkd-codeblock-class", C15, [(MU, "            block_start += \", \".join(classes)\n", "            block_start += classes[0]\n")]),
    ("mkd-codeblock-strip", C15, [(MU, "        content = \"\\n\".join((block_start, content, block_end))\n", "        content = \"\\n\".join((block_start, content.strip(), block_end))\n")]),
    ("mkd-div-attr", C15, [(MU, "            tags.append(f' class=\"{classes}\"')\n", "            tags.append(f' id=\"{classes}\"')\n")]),
    ("mkd-div-kv", C15, [(MU, "                    kvparts.append(k)\n", "                    continue\n")]),
    ("mkd-div-last", C15, [(MU, "                middle.append(self.__call__(content))\n", "                middle = [self.__call__(content)]\n")]),
    ("mkd-image-cap", C15, [(MU, "        caption = \"\".join(self.__call__(i) for i in caption)\n", "        caption = self.__call__(caption[0])\n")]),
    ("mkd-tab-dup", C15, [(MU, "            while column in columns[:i]:\n                column += \" \"\n", "")]),
    ("mkd-tab-dup-if", C15, [(MU, "            while column in columns[:i]:\n", "            if column in columns[:i]:\n")]),
    ("mkd-tab-rows", C15, [(MU, "            data_transposed = zip(*body)\n", "            data_transposed = zip(*dict.fromkeys(map(tuple, body)))\n")]),
    ("mkd-tab-notrans", C15, [(MU, "            data_transposed = zip(*body)\n", "            data_transposed = body\n")]),
    ("mkd-tab-old", C15, [(MU, "                if not col_row_item:\n                    content = \"\"\n", "                if not col_row_item:\n                    continue\n")]),
    ("mkd-tab-newhead", C15, [(MU, "            column = \"\".join(fn(part) for part in content)\n            columns.append(column)\n", "            column = \"\".join(fn(part) for part in content)\n            if column:\n                columns.append(column)\n")]),
    ("mkd-tab-mutate", C15, [(MU, "        _, _, _, trows = tbody[0]  # multiple groups of rows?\n", "        _, _, _, trows = tbody.pop(0)  # multiple groups of rows?\n")]),
    ("mkd-cache", C15, [(MU, "        type_, value = item[\"t\"], item.get(\"c\")\n", "        type_, value = item[\"t\"], item.get(\"c\")\n        if type_ == \"BulletList\" and str(value) in self._seen:\n            return self._seen[str(value)]\n"), (MU, "        self._indent_trace = []\n", "        self._indent_trace = []\n        self._seen = {}\n"), (MU, "        # recursively call until the value has been resolved into a str\n", "        self._seen[str(value)] = res\n        # recursively call until the value has been resolved into a str\n")]),
    ("mkd-default", C15, [(MU, "    def _make_content(self, content):\n        parts = []\n", "    def _make_content(self, content, parts=[]):\n")]),
    ("mkd-unknown", C15, [(MU, "            \"Strikeout\": self._strikeout,\n", "")]),
    ("mkd-list-item", C15, [(MU, "        content = \"\\n\".join(parts)\n        return f\"{self._get_indent()}{list_marker} {content}\"", "        content = \"\".join(parts)\n        return f\"{self._get_indent()}{list_marker} {content}\"")]),
    ("mkd-list-first", C15, [(MU, "        parts = [self.__call__(subitem) for subitem in items]\n        content = \"\\n\".join(parts)\n", "        content = self.__call__(items[0])\n")]),
    ("prs-latin", C15, [(PP, "    source = str(proc.stdout.decode(\"utf-8\"))\n\n    parser", "    source = str(proc.stdout.decode(\"latin-1\"))\n\n    parser")]),
    ("prs-ignore", C15, [(PP, "    source = str(proc.stdout.decode(\"utf-8\"))\n\n    parser", "    source = str(proc.stdout.decode(\"utf-8\", \"ignore\"))\n\n    parser")]),
]

# ---- C19, C20
FORK = "    def _construct(self):\n        content = self.children[\"content\"].construct()\n        # set_state does not change the type of the bit generator\n"
SETS = "        random_state.set_state(content)\n        return random_state\n"
LOADSCHEMA = "        schema = json.loads(input_zip.read(\"schema.json\"))\n"
READNPY = "                \"content\": io.BytesIO(load_context.src.read(state[\"file\"]))\n"
BUGS += [
    ("cln-seed", C19, [(NP, SETS, "        np.random.set_state(content)\n        return np.random.mtrand._rand\n")]),
    ("cln-seed2", C19 | C20, [(NP, SETS, "        np.random.seed(0)\n" + SETS)]),
    ("cln-environ", C19, [(PE, LOADSCHEMA, LOADSCHEMA + "        import os\n        os.environ[\"SKOPS_FILE\"] = str(file)\n")]),
    ("cln-syspath", C19, [(U, "def gettype(module_name: str, cls_or_func: str) -> Type[Any]:\n", "def gettype(module_name: str, cls_or_func: str) -> Type[Any]:\n    if \".\" not in sys.path:\n        sys.path.append(\".\")\n")]),
    ("cln-chdir", C19, [(PE, LOADSCHEMA, "        import os\n        os.chdir(Path(file).parent)\n" + LOADSCHEMA)]),
    ("cln-reclimit", C19, [(PE, LOADSCHEMA, "        import sys\n        sys.setrecursionlimit(100000)\n" + LOADSCHEMA)]),
    ("cln-extract", C19, [(NP, READNPY, "                \"content\": io.BytesIO(open(load_context.src.extract(state[\"file\"]), \"rb\").read())\n")]),
    ("cln-tempfile", C19, [(NP, "            content = np.load(self.children[\"content\"], allow_pickle=False)\n", "            import tempfile\n            tmp = tempfile.NamedTemporaryFile(delete=False)\n            tmp.write(self.children[\"content\"].getvalue())\n            tmp.close()\n            content = np.load(tmp.name, allow_pickle=False)\n")]),
    ("cln-pickle", C19, [(NP, "np.load(self.children[\"content\"], allow_pickle=False)", "np.load(self.children[\"content\"], allow_pickle=True)")]),
    ("cln-header", C19, [(NP, "np.load(self.children[\"content\"], allow_pickle=False)", "np.load(self.children[\"content\"], allow_pickle=False, max_header_size=10**9)")]),
    ("cln-alloc", C19, [(NP, "            tmp = [o.construct() for o in self.children[\"content\"]]\n", "            tmp = [o.construct() for o in self.children[\"content\"]]\n            content = np.empty(shape, dtype=\"O\")\n")]),
    ("cln-rec-swallow", C19, [(AU, "    loaded_tree = node_cls(state, load_context, trusted=trusted)\n", "    try:\n        loaded_tree = node_cls(state, load_context, trusted=trusted)\n    except RecursionError:\n        loaded_tree = node_cls(state, load_context, trusted=trusted)\n")]),
    ("cln-worklist", C19, [(AU, "    unsafe = tree.get_unsafe_set()\n    if unsafe:\n        raise UntrustedTypesFoundException(unsafe)\n", "    unsafe = set(tree.get_unsafe_set())\n    todo = [tree]\n    while todo:\n        node = todo.pop()\n        if not node.is_self_safe():\n            unsafe.add(node.format())\n        for child in node.children.values():\n            if isinstance(child, Node):\n                todo.append(child)\n    if unsafe:\n        raise UntrustedTypesFoundException(unsafe)\n")]),
    ("cln-chase", C19, [(AU, "        self.cached = load_context.get_object(state.get(\"__id__\"))  # type: ignore\n", "        cached = load_context.get_object(state.get(\"__id__\"))\n        while isinstance(cached, CachedNode):\n            cached = cached.cached\n        self.cached = cached\n"), (AU, "memoize=False)\n        self.trusted", "memoize=True)\n        self.trusted")]),
    ("cln-exit", C19, [(PE, LOADSCHEMA, LOADSCHEMA + "        if \"protocol\" not in schema:\n            import sys\n            sys.exit(\"not a skops file\")\n")]),
    ("cln-seterr", C19, [(NP, "            content = np.load(", "            np.seterr(all=\"ignore\")\n            content = np.load(")]),
    ("cln-warn", C19, [(PE, LOADSCHEMA, "        import warnings\n        warnings.simplefilter(\"ignore\")\n" + LOADSCHEMA)]),
    ("mem-ctx", C20, [(U, "    memo: dict[int, Any] = field(default_factory=dict)\n\n    def memoize(self, obj: Any, id: int)", "    memo: dict[int, Any] = field(default=_MEMO)\n\n    def memoize(self, obj: Any, id: int)"), (U, "@dataclass(frozen=True)\nclass LoadContext", "class _Memo(dict):\n    __hash__ = object.__hash__\n\n\n_MEMO = _Memo()\n\n\n@dataclass(frozen=True)\nclass LoadContext")]),
    ("mem-gettype", C20, [(U, "def gettype(module_name: str, cls_or_func: str) -> Type[Any]:\n    if module_name and cls_or_func:\n        return _import_obj(module_name, cls_or_func)\n", "_TYPES = {}\n\n\ndef gettype(module_name: str, cls_or_func: str) -> Type[Any]:\n    if module_name and cls_or_func:\n        if cls_or_func not in _TYPES:\n            _TYPES[cls_or_func] = _import_obj(module_name, cls_or_func)\n        return _TYPES[cls_or_func]\n")]),
    ("mem-getstate-cache", C20, [(U, "def get_state(value, save_context: SaveContext) -> dict[str, Any]:\n", "_STATES = {}\n\n\ndef get_state(value, save_context: SaveContext) -> dict[str, Any]:\n    if id(value) in _STATES:\n        return _STATES[id(value)]\n"), (U, "    res[\"__id__\"] = __id__\n    return res\n", "    res[\"__id__\"] = __id__\n    _STATES[__id__] = res\n    return res\n")]),
    ("mem-default-arg", C20, [(AU, "        trusted: Optional[Sequence[Union[str, Type]]],\n        default: Sequence[Union[str, Type]],\n    ) -> list[str]:", "        trusted: Optional[Sequence[Union[str, Type]]],\n        default: Sequence[Union[str, Type]],\n        _known: list = [],\n    ) -> list[str]:"), (AU, "        return get_type_paths(trusted) + get_type_paths(default)\n", "        _known.extend(get_type_paths(trusted))\n        return _known + get_type_paths(default)\n")]),
    ("mem-extend-trusted", C20, [(AU, "        return get_type_paths(trusted) + get_type_paths(default)\n", "        trusted += get_type_paths(default)\n        return trusted\n")]),
    ("mem-mapping", C20, [(AU, "        try:\n            node_cls = NODE_TYPE_MAPPING[key_new]\n", "        try:\n            node_cls = NODE_TYPE_MAPPING[key] = NODE_TYPE_MAPPING[key_new]\n")]),
    ("mem-counter", C20, [(SC, "    f_name = f\"{obj_id}.npz\"\n", "    f_name = f\"{obj_id}_{next(_COUNT)}.npz\"\n"), (SC, "def sparse_matrix_get_state(", "import itertools\n\n_COUNT = itertools.count()\n\n\ndef sparse_matrix_get_state(")]),
    ("mem-class-temp", C20, [(AU, "        with temp_setattr(self, _computing_unsafe_set=True):\n", "        with temp_setattr(type(self), _computing_unsafe_set=True):\n")]),
    ("mem-protocol", C20, [(PE, "        load_context = LoadContext(src=input_zip, protocol=schema[\"protocol\"])\n", "        import skops.io._protocol as _p\n        _p.PROTOCOL = max(schema[\"protocol\"], _p.PROTOCOL)\n        load_context = LoadContext(src=input_zip, protocol=schema[\"protocol\"])\n")]),
    ("mem-chdir", C20, [(PE, "        with open(file, \"wb\") as f:\n            f.write(buffer.getbuffer())\n", "        import os\n        here = os.getcwd()\n        os.chdir(Path(file).parent)\n        with open(Path(file).name, \"wb\") as f:\n            f.write(buffer.getbuffer())\n        os.chdir(here)\n")]),
    ("mem-arepr", C20, [(G, "        if len(self.content) > 100", "") if False else (G, "arepr.maxstring = 24\n", "arepr.maxstring = 24\n_KEYS = set()\n"), (G, "    json_keys = set()\n", "    json_keys = _KEYS\n    json_keys.clear()\n")]),
    ("card-metrics-class", C20, [(MC, "        self._metrics: dict[str, str | float | int] = {}\n", ""), (MC, "    def __init__(\n        self,\n        model,\n", "    _metrics: dict[str, str | float | int] = {}\n\n    def __init__(\n        self,\n        model,\n")]),
    ("card-data-class", C20, [(MC, "        self._data: dict[str, Section] = {}\n", ""), (MC, "    def __init__(\n        self,\n        model,\n", "    _data: dict[str, Section] = {}\n\n    def __init__(\n        self,\n        model,\n")]),
    ("card-sub-shared", C20, [(MC, "    subsections: dict[str, Section] = field(default_factory=dict)\n", "    subsections: dict[str, Section] = field(default_factory=lambda: _NONE)\n"), (MC, "@dataclass\nclass Section:\n", "_NONE: dict = {}\n\n\n@dataclass\nclass Section:\n")]),
    ("card-template-cache", C20, [(MC, "            self.add(folded=False, **SKOPS_TEMPLATE)\n", "            if not _TEMPLATE_DATA:\n                self.add(folded=False, **SKOPS_TEMPLATE)\n                _TEMPLATE_DATA.update(self._data)\n            else:\n                self._data = dict(_TEMPLATE_DATA)\n"), (MC, "class Card:\n", "_TEMPLATE_DATA: dict = {}\n\n\nclass Card:\n")]),
    ("card-template-pop", C20, [(MC, "            self.add(folded=False, **SKOPS_TEMPLATE)\n", "            self.add(folded=False, **SKOPS_TEMPLATE)\n            SKOPS_TEMPLATE.pop(\"Citation\", None)\n")]),
    ("card-load-cache", C20, [(MC, "def _load_model(model: Any, trusted=False) -> Any:\n", "@lru_cache(maxsize=None)\ndef _load_model(model: Any, trusted=False) -> Any:\n"), (MC, "from functools import cached_property\n", "from functools import cached_property, lru_cache\n")]),
    ("card-plot-gcf", C20, [(MC, "fig.savefig(", "plt.savefig(")]),
    ("card-repr-shared", C20, [(MC, "        aRepr = Repr()\n", "        aRepr = _REPR\n"), (MC, "class Card:\n", "_REPR = Repr()\n\n\nclass Card:\n")]),
    ("prs-mapping", C20, [(PP, "        self.mapping = mapping\n" if False else "class PandocParser:\n", "_CARD = []\n\n\nclass PandocParser:\n"), (PP, "        card = Card(None, template=None)\n", "        if not _CARD:\n            _CARD.append(Card(None, template=None))\n        card = _CARD[0]\n")]),
]

# fresh batch
BUGS += [
    ('fr-bytes-decode', {'C13'}, [('skops/io/_general.py', '        byte_repr = arepr.repr(content)\n        return byte_repr', '        byte_repr = arepr.repr(content)\n        if len(content) <= 8:\n            byte_repr = f"b{content.decode()!r}"\n        return byte_repr')]),
    ('fr-dictkey-order', {'C04'}, [('skops/io/_general.py', '        if isinstance(key, bool) or key is None or json_key in json_keys:\n', '        is_duplicate = isinstance(key, str) and json_key in json_keys\n        if isinstance(key, bool) or key is None or is_duplicate:\n')]),
    ('fr-bytes-crc', {'C06', 'C04', 'C12'}, [('skops/io/_general.py', '    f_name = f"{uuid.uuid4()}.bin"\n    save_context.zip_file.writestr(f_name, obj)\n', '    f_name = f"{zlib.crc32(obj):08x}.bin"\n    if f_name not in save_context.zip_file.namelist():\n        save_context.zip_file.writestr(f_name, obj)\n'), ('skops/io/_general.py', 'import uuid\n', 'import zlib\n')]),
    ('fr-nd-pointer', {'C06', 'C04', 'C12'}, [('skops/io/_numpy.py', '            f_name = f"{obj_id}.npy"\n', '            f_name = f"{obj_id}.npy"\n            if isinstance(obj, np.ndarray):\n                f_name = f"{obj.ctypes.data}.npy"\n')]),
    ('fr-dump-cleanup', {'C18'}, [('skops/io/_persist.py', '        with open(file, "wb") as f:\n            f.write(buffer.getbuffer())\n    else:', '        with open(file, "wb") as f:\n            f.write(buffer.getbuffer())\n            f.flush()\n    else:'), ('skops/io/_persist.py', '    buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n    if', '    try:\n        buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n    except Exception:\n        # do not leave an outdated model behind\n        if isinstance(file, (str, Path)):\n            Path(file).unlink(missing_ok=True)\n        raise\n\n    if')]),
    ('fr-dump-touch', {'C18'}, [('skops/io/_persist.py', '    buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n    if', '    if isinstance(file, (str, Path)):\n        # fail early if the file cannot be written\n        open(file, "ab").close()\n    buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n    if')]),
    ('fr-dump-seek', {'C18'}, [('skops/io/_persist.py', '    buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n    if', '    if hasattr(file, "seek") and hasattr(file, "truncate"):\n        file.seek(0)\n        file.truncate()\n    buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n    if')]),
    ('fr-tree-lru', {'C20'}, [('skops/io/_audit.py', '    loader: str = state["__loader__"]\n    protocol = load_context.protocol\n    key = (loader, protocol)\n\n    if key in NODE_TYPE_MAPPING:\n        node_cls = NODE_TYPE_MAPPING[key]\n    else:', '    loader: str = state["__loader__"]\n    protocol = load_context.protocol\n    key = (loader, protocol)\n\n    if loader in _RESOLVED:\n        node_cls = _RESOLVED[loader]\n    elif key in NODE_TYPE_MAPPING:\n        node_cls = _RESOLVED[loader] = NODE_TYPE_MAPPING[key]\n    else:'), ('skops/io/_audit.py', 'def get_tree(\n', '_RESOLVED: dict[str, Type[Node]] = {}\n\n\ndef get_tree(\n')]),
    ('fr-get-trusted-extend', {'C11', 'C20'}, [('skops/io/_audit.py', '        # otherwise, we trust the given list and default trusted types\n        return get_type_paths(trusted) + get_type_paths(default)\n', '        # otherwise, we trust the given list and default trusted types\n        if isinstance(default, list):\n            default.extend(t for t in trusted if t not in default)\n            return get_type_paths(default)\n        return get_type_paths(trusted) + get_type_paths(default)\n')]),
    ('fr-repr-limit', {'C20'}, [('skops/io/_general.py', '        content = self.children["content"].getvalue()\n        byte_repr = arepr.repr(content)\n', '        content = self.children["content"].getvalue()\n        arepr.maxother = max(arepr.maxother, len(str(self.class_name)))\n        arepr.maxstring = arepr.maxother - 6\n        byte_repr = arepr.repr(content)\n')]),
    ('fr-unsafe-once', {'C13', 'C03'}, [('skops/io/_audit.py', '        if hasattr(self, "_computing_unsafe_set"):\n            # this means we\'re already computing this node\'s unsafe set, so we\n            # return an empty set and let the computation of the parent node\n            # continue. This is to avoid infinite recursion.\n            return set()\n\n        with temp_setattr(self, _computing_unsafe_set=True):\n', '        if hasattr(self, "_computing_unsafe_set"):\n            # this means we\'re already computing this node\'s unsafe set, so we\n            # return an empty set and let the computation of the parent node\n            # continue. This is to avoid infinite recursion.\n            return set()\n\n        self._computing_unsafe_set = True\n        if True:\n')]),
    ('fr-setstate-dict', {'C07', 'C04'}, [('skops/io/_general.py', '            if hasattr(instance, "__setstate__"):\n                instance.__setstate__(attrs)\n', '            if hasattr(instance, "__setstate__") and not isinstance(attrs, dict):\n                instance.__setstate__(attrs)\n')]),
    ('fr-attrs-empty', {'C07', 'C04'}, [('skops/io/_general.py', "    content = get_state(attrs, save_context)\n    # it's sufficient", "    if not attrs:\n        # an object without attributes\n        return res\n\n    content = get_state(attrs, save_context)\n    # it's sufficient")]),
    ('fr-json-float', {'C04', 'C05'}, [('skops/io/_general.py', '        obj_str = json.dumps(obj)\n        # sub', '        obj_str = f"{obj:.16g}" if type(obj) is float else json.dumps(obj)\n        # sub')]),
    ('fr-method-self', {'C04'}, [('skops/io/_general.py', '    if getattr(obj.__self__, obj.__func__.__name__, obj) != obj:\n', '    if not hasattr(obj.__self__, obj.__func__.__name__):\n')]),
    ('fr-mask-default', {'C04', 'C05'}, [('skops/io/_numpy.py', '        array = np.ma.MaskedArray(data, mask)\n        if', '        array = np.ma.MaskedArray(data, mask if mask.any() else np.ma.nomask)\n        if')]),
    ('fr-seedseq-spawn', {'C04', 'C05'}, [('skops/io/_numpy.py', '    seed_seq_state = get_state(obj.bit_generator.seed_seq.state, save_context)\n', '    seed_seq_state = obj.bit_generator.seed_seq.state\n    seed_seq_state.pop("n_children_spawned", None)\n    seed_seq_state = get_state(seed_seq_state, save_context)\n')]),
    ('fr-object-c-order', {'C05'}, [('skops/io/_numpy.py', '            for index, value in zip(np.ndindex(*shape), values):\n                content[index] = value\n', '            content.flat = values\n')]),
    ('fr-cv-suffix', {'C17'}, [('skops/cli/_convert.py', '        file_name = pathlib.Path(input_file).stem\n        output_file = pathlib.Path.cwd() / f"{file_name}.skops"\n', '        output_file = pathlib.Path(input_file).with_suffix(".skops")\n')]),
    ('fr-cv-stem', {'C17'}, [('skops/cli/_convert.py', '        file_name = pathlib.Path(input_file).stem\n        output_file = pathlib.Path.cwd() / f"{file_name}.skops"\n', '        file_name = pathlib.Path(input_file).name.split(".")[0]\n        output_file = pathlib.Path.cwd() / f"{file_name}.skops"\n')]),
    ('fr-cv-trusted', {'C17'}, [('skops/cli/_convert.py', '        untrusted_str = ", ".join(untrusted_types)\n', '        untrusted_str = ", ".join(t.rpartition(".")[2] for t in untrusted_types)\n')]),
    ('fr-up-verify', {'C16'}, [('skops/cli/_update.py', '        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n', '        dump(input_model, tmp_output_file)\n        output_path.unlink(missing_ok=True)\n        os.replace(tmp_output_file, output_path)\n')]),
    ('fr-vis-keytypes', {'C13'}, [('skops/io/_visualize.py', '    if isinstance(node, DictNode) and children["key_types"].is_safe():\n', '    if isinstance(node, DictNode) and children["key_types"].is_self_safe():\n')]),
    ('fr-vis-protocol', {'C13', 'C08'}, [('skops/io/_visualize.py', 'protocol=schema["protocol"])', 'protocol=PROTOCOL)'), ('skops/io/_visualize.py', 'from ._numpy import NdArrayNode\n', 'from ._numpy import NdArrayNode\nfrom ._protocol import PROTOCOL\n')]),
    ('fr-pp-sibling-title', {'C15'}, [('skops/card/_parser.py', '        cur_section = Section(title=section_name, content="")\n        siblings = card._select(parents)\n        # the same title may occur several times, number the keys of the sections\n        key, count = section_name, 1\n        while key in siblings:\n            count += 1\n            key = f"{section_name} ({count})"\n', '        siblings = card._select(parents)\n        # the same title may occur several times, number the keys of the sections\n        key, count = section_name, 1\n        while key in siblings:\n            count += 1\n            key = f"{section_name} ({count})"\n        cur_section = Section(title=key, content="")\n')]),
    ('fr-pp-levels', {'C15'}, [('skops/card/_parser.py', '                while section_levels and section_levels[-1] >= level:\n                    section_levels.pop()\n', '                while section_levels and section_levels[-1] > level:\n                    section_levels.pop()\n                if section_levels and section_levels[-1] == level:\n                    section_levels = section_levels[: level - 1]\n')]),
    ('fr-save-ascii', {'C10'}, [('skops/card/_model_card.py', '        with open(path, "w", encoding="utf-8") as f:\n', '        with open(path, "w", encoding="utf-8", errors="replace") as f:\n')]),
    ('fr-u-which', {'C04'}, [('skops/io/_utils.py', '    if getattr(module, obj.__name__, obj) is not obj:\n', '    if getattr(module, obj.__name__, None) is None:\n')]),
]

# audit batch
BUGS += [
    ('au-list-cap', {'C03', 'C01'}, [('skops/io/_audit.py', '                    for value in child:\n', '                    for value in child[:1000]:\n')]),
    ('au-list-alnum', {'C03', 'C01'}, [('skops/io/_audit.py', '                    for value in child:\n                        res.update(value.get_unsafe_set())\n', '                    for value in child:\n                        if value.children:\n                            res.update(value.get_unsafe_set())\n')]),
    ('au-leaf-json', {'C03', 'C01'}, [('skops/io/_audit.py', '                    for value in child.values():\n                        res.update(value.get_unsafe_set())\n', '                    for key, value in child.items():\n                        if not key.startswith("__"):\n                            res.update(value.get_unsafe_set())\n')]),
    ('au-numpy-core', {'C11', 'C03', 'C01'}, [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    name = module_name + "." + type_name\n    return name in trusted or name.replace("numpy._core.", "numpy.") in trusted\n')]),
    ('au-check-case', {'C03', 'C01'}, [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    name = (module_name + "." + type_name).casefold()\n    return any(name == t.casefold() for t in trusted)\n')]),
    ('au-check-strip', {'C03', 'C01'}, [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    return (module_name + "." + type_name).strip() in trusted\n')]),
    ('au-check-private', {'C03', 'C01'}, [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    # private modules are an implementation detail of the package\n    public = ".".join(m for m in module_name.split(".") if not m.startswith("_"))\n    return f"{module_name}.{type_name}" in trusted or f"{public}.{type_name}" in trusted\n')]),
    ('au-method-trusted-class', {'C11', 'C03', 'C01'}, [('skops/io/_general.py', '        if not check_type(obj.module_name, type_name, self.trusted):\n', '        if not obj.is_self_safe() and not check_type(\n            obj.module_name, type_name, self.trusted\n        ):\n')]),
    ('au-method-private', {'C11', 'C03', 'C01'}, [('skops/io/_general.py', '        if not check_type(obj.module_name, type_name, self.trusted):\n', '        if self.func.startswith("_") and not check_type(\n            obj.module_name, type_name, self.trusted\n        ):\n')]),
    ('au-method-default', {'C11'}, [('skops/io/_general.py', '        self.func = state["content"]["func"]\n        # TODO: what do we trust?\n        self.trusted = self._get_trusted(trusted, [])\n', '        self.func = state["content"]["func"]\n        # TODO: what do we trust?\n        self.trusted = self._get_trusted(trusted, ["builtins.method", "builtins.dict.get"])\n')]),
    ('au-audit-json-root', {'C03', 'C01'}, [('skops/io/_audit.py', '    unsafe = tree.get_unsafe_set()\n    if unsafe:\n', '    if not tree.children:\n        # nothing but plain data\n        return\n    unsafe = tree.get_unsafe_set()\n    if unsafe:\n')]),
    ('au-depth', {'C01'}, [('skops/io/_audit.py', '    def get_unsafe_set(self) -> set[str]:\n        """Get the set of unsafe types.\n', '    def get_unsafe_set(self, depth: int = 0) -> set[str]:\n        """Get the set of unsafe types.\n'), ('skops/io/_audit.py', '        if hasattr(self, "_computing_unsafe_set"):\n', '        if hasattr(self, "_computing_unsafe_set") or depth > 200:\n'), ('skops/io/_audit.py', '                    # delegate to the child Node\n                    res.update(child.get_unsafe_set())\n', '                    # delegate to the child Node\n                    res.update(child.get_unsafe_set(depth + 1))\n'), ('skops/io/_general.py', '    def get_unsafe_set(self) -> set[str]:\n        fn_name', '    def get_unsafe_set(self, depth: int = 0) -> set[str]:\n        fn_name'), ('skops/io/_general.py', '    def get_unsafe_set(self) -> set[str]:\n        res = super().get_unsafe_set()\n', '    def get_unsafe_set(self, depth: int = 0) -> set[str]:\n        res = super().get_unsafe_set(depth)\n'), ('skops/io/old/_general_v0.py', '    def get_unsafe_set(self) ->', '    def get_unsafe_set(self, depth: int = 0) ->')]),
    ('au-fn-special', {'C11', 'C03', 'C01'}, [('skops/io/_general.py', '        if (self.trusted is True) or (fn_name in self.trusted):\n            return set()\n', '        if (self.trusted is True) or (fn_name in self.trusted):\n            return set()\n        if self.module_name.startswith("scipy.special"):\n            return set()\n')]),
    ('au-fn-private', {'C11', 'C03', 'C01'}, [('skops/io/_general.py', '        return f"{self.module_name}.{self.class_name}"\n\n    def get_unsafe_set', '        return f"{self.module_name.partition(\'._\')[0]}.{self.class_name}"\n\n    def get_unsafe_set')]),
    ('au-fn-content', {'C01'}, [('skops/io/_general.py', '        self.children = {}\n\n    def _construct(self):\n        return gettype(self.module_name, self.class_name)\n\n    def _get', '        self.name = state.get("content", self.class_name)\n        self.children = {}\n\n    def _construct(self):\n        return gettype(self.module_name, self.name)\n\n    def _get')]),
    ('au-key-types-out', {'C03', 'C01'}, [('skops/io/_general.py', '        self.children = {\n            "key_types": get_tree(state["key_types"], load_context, trusted=trusted),\n            "content": {\n                key: get_tree(value, load_context, trusted=trusted)\n                for key, value in state["content"].items()\n            },\n        }\n\n    def _construct(self):\n        content = gettype(self.module_name, self.class_name)()\n        key_types = self.children["key_types"].construct()\n', '        self.key_types = get_tree(state["key_types"], load_context, trusted=trusted)\n        self.children = {\n            "content": {\n                key: get_tree(value, load_context, trusted=trusted)\n                for key, value in state["content"].items()\n            },\n        }\n\n    def _construct(self):\n        content = gettype(self.module_name, self.class_name)()\n        key_types = self.key_types.construct()\n')]),
    ('au-dd-factory-trust', {'C11', 'C01'}, [('skops/io/_general.py', '                state["content"]["default_factory"],\n                load_context,\n                trusted=trusted,\n', '                state["content"]["default_factory"],\n                load_context,\n                trusted=self._get_trusted(trusted, ["collections.Counter"]),\n')]),
    ('au-import-fallback', {'C01'}, [('skops/io/_utils.py', '    return getattr(importlib.import_module(module, package=package), cls_or_func)\n', '    imported = importlib.import_module(module, package=package)\n    try:\n        return getattr(imported, cls_or_func)\n    except AttributeError:\n        # the name may have moved to the top level of the package\n        top_level = importlib.import_module(module.partition(".")[0])\n        return getattr(top_level, cls_or_func)\n')]),
    ('au-import-dotted', {'C01'}, [('skops/io/_utils.py', '    return getattr(importlib.import_module(module, package=package), cls_or_func)\n', '    return getattr(\n        importlib.import_module(module, package=package),\n        cls_or_func.rpartition(".")[2],\n    )\n')]),
    ('au-gettype-shadow', {'C01'}, [('skops/io/_utils.py', '    if module_name and cls_or_func:\n        return _import_obj(module_name, cls_or_func)\n', '    if cls_or_func:\n        return _import_obj(module_name or "__main__", cls_or_func)\n')]),
    ('au-objnode-attrs', {'C03', 'C01'}, [('skops/io/_general.py', '        self.children = {"attrs": attrs}\n        # TODO: what do we trust?\n', '        self.attrs = attrs\n        self.children = {"attrs": attrs if content and content["__loader__"] == "DictNode" else None}\n        # TODO: what do we trust?\n'), ('skops/io/_general.py', '        if not self.children["attrs"]:\n            # nothing more to do\n            return instance\n\n        attrs = self.children["attrs"].construct()\n        if attrs is not None:\n            if hasattr(instance', '        if not self.attrs:\n            # nothing more to do\n            return instance\n\n        attrs = self.attrs.construct()\n        if attrs is not None:\n            if hasattr(instance')]),
    ('au-objnode-eager', {'C02'}, [('skops/io/_general.py', '        self.children = {"attrs": attrs}\n        # TODO: what do we trust?\n', '        self.children = {"attrs": attrs}\n        self.has_setstate = self.is_self_safe() and hasattr(\n            gettype(self.module_name, self.class_name), "__setstate__"\n        )\n        # TODO: what do we trust?\n')]),
    ('au-nd-eager', {'C02'}, [('skops/io/_numpy.py', '        if self.type == "numpy":\n            self.children = {\n                "content": io.BytesIO(load_context.src.read(state["file"]))\n            }\n', '        if self.type == "numpy":\n            self.children = {\n                "content": io.BytesIO(load_context.src.read(state["file"]))\n            }\n            self.is_array = self.class_name == "ndarray" or issubclass(\n                gettype(self.module_name, self.class_name), np.ndarray\n            )\n')]),
    ('au-nd-pickle', {'C01'}, [('skops/io/_numpy.py', '            content = np.load(self.children["content"], allow_pickle=False)\n', '            content = np.load(\n                self.children["content"],\n                allow_pickle=self.class_name == "recarray",\n            )\n')]),
    ('au-nd-path', {'C01'}, [('skops/io/_numpy.py', '                "content": io.BytesIO(load_context.src.read(state["file"]))\n', '                "content": io.BytesIO(load_context.src.read(state["file"]))\n                if state["file"] in load_context.src.namelist()\n                else state["file"]\n')]),
    ('au-bitgen-getattr', {'C01'}, [('skops/io/_numpy.py', '        bit_generator = BIT_GENERATORS[content["bit_generator"]]()\n', '        name = content["bit_generator"]\n        bit_generator_cls = BIT_GENERATORS.get(name) or gettype("numpy.random", name)\n        bit_generator = bit_generator_cls()\n')]),
    ('au-v1-getattr', {'C01'}, [('skops/io/old/_numpy_v1.py', '        bit_generator_cls = BIT_GENERATORS[bit_generator_state["bit_generator"]]\n', '        bit_generator_cls = gettype(\n            "numpy.random", bit_generator_state["bit_generator"]\n        )\n')]),
    ('au-v0-function', {'C01'}, [('skops/io/old/_general_v0.py', '            + "."\n            + self.children["content"]["function"]\n', '            + "."\n            + self.children["content"]["function"].rpartition(".")[2]\n')]),
    ('au-v0-class', {'C11', 'C01'}, [('skops/io/old/_general_v0.py', '        return (\n            self.children["content"]["module_path"]\n            + "."\n            + self.children["content"]["function"]\n        )\n', '        return self.module_name + "." + self.class_name\n')]),
    ('au-sparse-trust', {'C11'}, [('skops/io/_scipy.py', '        self.trusted = self._get_trusted(trusted, [spmatrix])\n', '        self.trusted = self._get_trusted(trusted, [spmatrix, self.module_name + "." + self.class_name])\n')]),
    ('au-loss-children', {'C11', 'C01'}, [('skops/io/_sklearn.py', '            trusted, [get_module(x) + "." + x.__name__ for x in ALLOWED_LOSSES]\n        )\n', '            trusted, [get_module(x) + "." + x.__name__ for x in ALLOWED_LOSSES]\n        )\n        if state["__class__"].endswith("Loss"):\n            self.trusted.append(f"{state[\'__module__\']}.{state[\'__class__\']}")\n')]),
    ('au-reduce-constructor', {'C01'}, [('skops/io/_sklearn.py', '        constructor = gettype(\n            self.children["constructor"].module_name,\n            self.children["constructor"].class_name,\n        )\n        instance', '        constructor = gettype(\n            self.module_name or self.children["constructor"].module_name,\n            self.class_name or self.children["constructor"].class_name,\n        )\n        instance')]),
    ('au-opfunc-module', {'C01'}, [('skops/io/_general.py', '        op = gettype(self.module_name, self.class_name)\n        attrs = self', '        op = gettype("operator", self.class_name)\n        attrs = self')]),
    ('au-opfunc-default', {'C11'}, [('skops/io/_general.py', '        self.trusted = self._get_trusted(trusted, [])\n        self.children["attrs"]', '        self.trusted = self._get_trusted(\n            trusted,\n            [f"operator.{n}" for n in ("attrgetter", "itemgetter", "methodcaller")],\n        )\n        self.children["attrs"]')]),
    ('au-message-first', {'C03'}, [('skops/io/_audit.py', '        raise UntrustedTypesFoundException(unsafe)\n', '        raise UntrustedTypesFoundException(unsafe - set(tree.trusted))\n')]),
    ('au-load-lastname', {'C03', 'C01'}, [('skops/io/_persist.py', '        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n\n\ndef loads', '        tree = get_tree(schema, load_context, trusted=trusted)\n        if trusted is None or set(trusted) != tree.get_unsafe_set():\n            audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n\n\ndef loads')]),
    ('au-get-untrusted-memo', {'C03'}, [('skops/io/_persist.py', '        tree = get_tree(schema, load_context=load_context, trusted=None)\n        untrusted_types = tree.get_unsafe_set()\n', '        tree = get_tree(schema, load_context=load_context, trusted=None)\n        untrusted_types = set()\n        for node in load_context.memo.values():\n            if not node.is_self_safe():\n                untrusted_types.add(f"{node.module_name}.{node.class_name}")\n')]),
    ('au-get-untrusted-private', {'C03'}, [('skops/io/_persist.py', '    return sorted(untrusted_types)\n', '    return sorted(name for name in untrusted_types if not name.endswith(".None"))\n')]),
    ('au-get-untrusted-file', {'C03'}, [('skops/io/_persist.py', '    if data:\n        content = io.BytesIO(data)\n    else:\n', '    trusted = None\n    if data:\n        content = io.BytesIO(data)\n        trusted = ["__main__.main"]\n    else:\n'), ('skops/io/_persist.py', 'load_context=load_context, trusted=None)', 'load_context=load_context, trusted=trusted)')]),
    ('au-typepath-nested', {'C03'}, [('skops/io/_utils.py', '    return f"{get_module(t)}.{t.__name__}"\n', '    return f"{get_module(t)}.{t.__qualname__}"\n')]),
    ('au-memo-trusted', {'C03', 'C01'}, [('skops/io/_audit.py', '    loaded_tree = node_cls(state, load_context, trusted=trusted)\n', '    if load_context.memo:\n        # the list has been merged with the defaults by the parent already\n        trusted = list(load_context.memo.values())[-1].trusted\n    loaded_tree = node_cls(state, load_context, trusted=trusted)\n')]),
]
