V = "skops/io/_visualize.py"
PP = "skops/card/_parser.py"
MU = "skops/card/_markup.py"
QUIET = [
    ("vis-return-none", [(V, "    return is_self_safe\n", "    ok = is_self_safe\n    return bool(ok)\n")]),
    ("vis-loop", [(V, "    yield from walk_tree(\n        children,\n        node_name=node_name,\n        level=level + 1,\n    )", "    next_level = level + 1\n    for info in walk_tree(children, node_name, next_level):\n        yield info")]),
    ("vis-elif", [(V, "    if isinstance(node, (list, tuple)):\n        num_nodes = len(node)", "    elif isinstance(node, tuple) or isinstance(node, list):\n        num_nodes = len(node)")]),
    ("vis-var", [(V, "    yield NodeInfo(\n        level=level,\n        key=node_name,\n        val=node.format(),\n        is_self_safe=node.is_self_safe(),\n        is_safe=node.is_safe(),\n        is_last=is_last,\n    )", "    safe = node.is_safe()\n    own = node.is_self_safe()\n    info = NodeInfo(level, node_name, node.format(), own, safe, is_last)\n    yield info")]),
    ("vis-delkey", [(V, "children = {key: val for key, val in children.items() if key != \"key_types\"}", "children = dict(children)\n        del children[\"key_types\"]")]),
    ("vis-skip-helper", [(V, "    if isinstance(node, SKIPPED_TYPES):\n        if not (isinstance(node, NdArrayNode) and node.type == \"json\"):\n            return\n        if node.is_safe():\n            return", "    if _skip(node):\n        return"), (V, "def walk_tree(", "def _skip(node):\n    if not isinstance(node, SKIPPED_TYPES):\n        return False\n    if isinstance(node, NdArrayNode) and node.type == \"json\":\n        return node.is_safe()\n    return True\n\n\ndef walk_tree(")]),
    ("vis-label", [(V, "    tag = tag_safe if node.is_self_safe else tag_unsafe\n    if tag:\n        node_val += f\" {tag}\"", "    if node.is_self_safe:\n        tag = tag_safe\n    else:\n        tag = tag_unsafe\n    if tag != \"\":\n        node_val = node_val + \" \" + tag")]),
    ("vis-print", [(V, "            print(f\" {node.key}: {label}\")", "            text = \" {}: {}\".format(node.key, label)\n            print(text)")]),
    ("vis-match-mode", [(V, "    if show == \"all\":\n        return True\n\n    if show == \"untrusted\":\n        return not is_safe\n", "    visible = {\"all\": True, \"untrusted\": not is_safe}\n    if show in visible:\n        return visible[show]\n")]),
]

G = "skops/io/_general.py"
NP = "skops/io/_numpy.py"
SK = "skops/io/_sklearn.py"
SC = "skops/io/_scipy.py"
AU = "skops/io/_audit.py"
U = "skops/io/_utils.py"
QUIET += [
    ("dat-list-loop", [(G, "    content = [get_state(value, save_context) for value in obj]\n\n    res[\"content\"] = content", "    states = []\n    for value in obj:\n        states.append(get_state(value, save_context))\n    res.update(content=states)")]),
    ("dat-list-map", [(G, "return content_type([item.construct() for item in self.children[\"content\"]])\n\n\ndef set", "return content_type(item.construct() for item in self.children[\"content\"])\n\n\ndef set")]),
    ("dat-list-map2", [(G, "return content_type([item.construct() for item in self.children[\"content\"]])\n\n\ndef set", "return content_type(map(lambda n: n.construct(), self.children[\"content\"]))\n\n\ndef set")]),
    ("dat-header", [(G, "def list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:\n    res = {\n        \"__class__\": obj.__class__.__name__,\n        \"__module__\": get_module(type(obj)),\n        \"__loader__\": \"ListNode\",\n    }", "def _header(obj, loader):\n    cls = type(obj)\n    return {\"__class__\": cls.__name__, \"__module__\": get_module(cls), \"__loader__\": loader}\n\n\ndef list_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:\n    res = _header(obj, \"ListNode\")")]),
    ("dat-dict-enum", [(G, "        for k_type, (key, val) in zip(key_types, self.children[\"content\"].items()):\n            content[k_type(key)] = val.construct()", "        nodes = self.children[\"content\"]\n        for i, key in enumerate(nodes):\n            k_type = key_types[i]\n            content[k_type(key)] = nodes[key].construct()")]),
    ("dat-dict-keysloop", [(G, "    key_types = get_state([type(key) for key in obj.keys()], save_context)\n    content = {}", "    types = []\n    for k in obj:\n        types.append(type(k))\n    key_types = get_state(types, save_context)\n    content = {}")]),
    ("dat-dict-invert", [(G, "        json_key = key if isinstance(key, str) else str(key)\n        if isinstance(key, bool) or key is None or json_key in json_keys:\n            # these keys cannot be told apart, or restored, from their json string\n            raise UnsupportedTypeException(obj)\n        json_keys.add(json_key)\n        content[key] = get_state(value, save_context)", "        if isinstance(key, str):\n            json_key = key\n        else:\n            json_key = str(key)\n        ok = not isinstance(key, bool) and key is not None and json_key not in json_keys\n        if ok:\n            json_keys.add(json_key)\n            content[key] = get_state(value, save_context)\n        else:\n            raise UnsupportedTypeException(obj)")]),
    ("dat-tuple-star", [(G, "        content = tuple(value.construct() for value in self.children[\"content\"])\n\n        if self.isnamedtuple(cls):\n            return cls(*content)\n        if cls is tuple:\n            return content\n        return tuple.__new__(cls, content)", "        items = [value.construct() for value in self.children[\"content\"]]\n\n        if not self.isnamedtuple(cls):\n            if cls is not tuple:\n                return tuple.__new__(cls, items)\n            return tuple(items)\n        return cls(*items)")]),
    ("dat-slice-dict", [(G, "        self.start = state[\"content\"][\"start\"]\n        self.stop = state[\"content\"][\"stop\"]\n        self.step = state[\"content\"][\"step\"]", "        content = state[\"content\"]\n        self.start, self.stop, self.step = (content[k] for k in (\"start\", \"stop\", \"step\"))")]),
    ("dat-slice-any", [(G, "    for value in (obj.start, obj.stop, obj.step):\n        if value is not None and type(value) not in (bool, int, float, str):\n            raise UnsupportedTypeException(obj)", "    values = (obj.start, obj.stop, obj.step)\n    if any(v is not None and type(v) not in (bool, int, float, str) for v in values):\n        raise UnsupportedTypeException(obj)")]),
    ("dat-obj-early", [(G, "        attrs = self.children[\"attrs\"].construct()\n        if attrs is not None:\n            if hasattr(instance, \"__setstate__\"):\n                instance.__setstate__(attrs)\n            else:\n                instance.__dict__.update(attrs)\n\n        return instance", "        attrs = self.children[\"attrs\"].construct()\n        if attrs is None:\n            return instance\n        setstate = getattr(instance, \"__setstate__\", None)\n        if setstate is not None:\n            setstate(attrs)\n        else:\n            vars(instance).update(attrs)\n        return instance")]),
    ("dat-obj-new", [(G, "instance = cls.__new__(cls)  # type: ignore", "instance = object.__new__(cls)")]),
    ("dat-obj-reduce", [(G, "    reduce_output = obj.__reduce__()\n    if len(reduce_output) == 2 and reduce_output[0] is type(obj):\n", "    reduce_output = obj.__reduce__()\n    only_args = len(reduce_output) == 2\n    own_type = reduce_output[0] is type(obj)\n    if own_type and only_args:\n")]),
    ("dat-obj-helper", [(G, "    if hasattr(obj, \"__getstate__\"):\n        attrs = obj.__getstate__()\n    elif hasattr(obj, \"__dict__\"):\n        attrs = obj.__dict__\n    else:\n        return res\n", "    found, attrs = _attributes(obj)\n    if not found:\n        return res\n"), (G, "def object_get_state(", "def _attributes(obj):\n    if hasattr(obj, \"__getstate__\"):\n        return True, obj.__getstate__()\n    if hasattr(obj, \"__dict__\"):\n        return True, obj.__dict__\n    return False, None\n\n\ndef object_get_state(")]),
    ("dat-json-try", [(G, "    try:\n        # if we can simply use json, then we're done.\n        obj_str = json.dumps(obj)\n", "    try:\n        encode, decode = json.dumps, json.loads\n        obj_str = encode(obj)\n")]),
    ("dat-partial-simple", [(G, "        instance = partial(func, *args, **kwds)  # always use partial, not a subclass\n        # partial always has __setstate__\n        instance.__setstate__((func, args, kwds, namespace))  # type: ignore\n        return instance", "        restored = partial(func, *args, **kwds)\n        state = (func, args, kwds, namespace)\n        restored.__setstate__(state)\n        return restored")]),
    ("dat-partial-attrs", [(G, "_, _, (func, args, kwds, namespace) = obj.__reduce__()", "reduced = obj.__reduce__()\n    func, args, kwds, namespace = reduced[2]")]),
    ("dat-partial-comp", [(G, "        self.children = {\n            \"func\": get_tree(state[\"content\"][\"func\"], load_context, trusted=trusted),\n            \"args\": get_tree(state[\"content\"][\"args\"], load_context, trusted=trusted),\n            \"kwds\": get_tree(state[\"content\"][\"kwds\"], load_context, trusted=trusted),\n            \"namespace\": get_tree(\n                state[\"content\"][\"namespace\"], load_context, trusted=trusted\n            ),\n        }", "        content = state[\"content\"]\n        self.children = {\n            key: get_tree(content[key], load_context, trusted=trusted)\n            for key in (\"func\", \"args\", \"kwds\", \"namespace\")\n        }")]),
    ("dat-array-helper", [(NP, "    try:\n        # If the dtype is object, np.save should", "    is_object = obj.dtype == object\n    try:\n        # If the dtype is object, np.save should"), (NP, "        if obj.dtype == object:\n", "        if is_object:\n")]),
    ("dat-array-flip", [(NP, "            if f\"{self.module_name}.{self.class_name}\" != \"numpy.ndarray\":\n                content = content.view(gettype(self.module_name, self.class_name))\n            return content", "            if f\"{self.module_name}.{self.class_name}\" == \"numpy.ndarray\":\n                return content\n            return content.view(gettype(self.module_name, self.class_name))")]),
    ("dat-array-empty", [(NP, "content = np.ndarray(shape=shape, dtype=\"O\")", "content = np.empty(shape, dtype=object)")]),
    ("dat-array-loop", [(NP, "            values = []\n            for index in np.ndindex(*shape):\n                value = tmp\n                for i in index:\n                    value = value[i]\n                values.append(value)\n            content = np.ndarray(shape=shape, dtype=\"O\")\n            for index, value in zip(np.ndindex(*shape), values):\n                content[index] = value", "            content = np.ndarray(shape=shape, dtype=\"O\")\n            for index in np.ndindex(*shape):\n                value = tmp\n                for i in index:\n                    value = value[i]\n                content[index] = value")]),
    ("dat-save-helper", [(NP, "            data_buffer = io.BytesIO()\n            np.save(data_buffer, obj, allow_pickle=False)\n", "            data_buffer = _npy(obj)\n"), (NP, "def ndarray_get_state(", "def _npy(array):\n    buffer = io.BytesIO()\n    np.save(buffer, array, allow_pickle=False)\n    return buffer\n\n\ndef ndarray_get_state(")]),
    ("dat-save-getvalue", [(NP, "data_buffer.getbuffer()", "data_buffer.getvalue()")]),
    ("dat-ma-kw", [(NP, "array = np.ma.MaskedArray(data, mask)", "array = np.ma.MaskedArray(data=data, mask=mask)")]),
    ("dat-rs", [(NP, "        random_state = gettype(self.module_name, self.class_name)(bit_generator)\n        random_state.set_state(content)\n        return random_state", "        cls = gettype(self.module_name, self.class_name)\n        rng = cls(bit_generator)\n        rng.set_state(content)\n        return rng")]),
    ("dat-gen", [(NP, "        bit_generator = bit_generator_cls(seed_seq)\n        bit_generator.state = bit_generator_state\n\n        # next create the generator instance\n        return gettype(self.module_name, self.class_name)(bit_generator=bit_generator)", "        bg = bit_generator_cls(seed_seq)\n        bg.state = bit_generator_state\n        cls = gettype(self.module_name, self.class_name)\n        return cls(bg)")]),
    ("dat-tree-state", [(SK, "    if len(reduced) == 3:\n", "    args, rest = reduced[1], reduced[2:]\n    if len(reduced) > 2:\n")]),
    ("dat-reduce-loop", [(SK, "        if hasattr(instance, \"__setstate__\"):\n            instance.__setstate__(attrs)\n        elif isinstance(attrs, dict):\n            instance.__dict__.update(attrs)\n        else:\n            # we (probably) got tuple attrs but cannot setstate with them\n            raise UnsupportedTypeException(\n                f\"Objects of type {constructor} are not supported yet\"\n            )\n\n        return instance", "        if hasattr(instance, \"__setstate__\"):\n            instance.__setstate__(attrs)\n            return instance\n        if not isinstance(attrs, dict):\n            raise UnsupportedTypeException(\n                f\"Objects of type {constructor} are not supported yet\"\n            )\n        instance.__dict__.update(attrs)\n        return instance")]),
    ("dat-sparse", [(SC, "    data_buffer = io.BytesIO()\n    save_npz(data_buffer, obj)", "    buffer = data_buffer = io.BytesIO()\n    save_npz(buffer, matrix=obj)")]),
    ("dat-dtype", [(NP, "    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj.base)\n", "    tmp = np.empty((0,), dtype=obj.base)\n")]),
    ("dat-method", [(G, "    if getattr(obj.__self__, obj.__func__.__name__, obj) != obj:", "    owner, name = obj.__self__, obj.__func__.__name__\n    if getattr(owner, name, obj) != obj:")]),
    ("dat-check-name", [(U, "def check_name(", "def check_name(")]),
    ("dat-trees", [(SK, "        reduce = state[\"__reduce__\"]\n        self.children = {\n            \"attrs\": get_tree(state[\"content\"], load_context, trusted=trusted),\n            \"args\": get_tree(reduce[\"args\"], load_context, trusted=trusted),\n            \"constructor\": TypeNode(", "        children = {}\n        children[\"args\"] = get_tree(state[\"__reduce__\"][\"args\"], load_context, trusted=trusted)\n        children[\"attrs\"] = get_tree(state[\"content\"], load_context, trusted=trusted)\n        self.children = children\n        self.children.update({\n            \"constructor\": TypeNode("), (SK, "                load_context,\n                trusted=trusted,\n            ),\n        }\n\n    def _construct(self):\n        args", "                load_context,\n                trusted=trusted,\n            ),\n        })\n\n    def _construct(self):\n        args")]),
]

PE = "skops/io/_persist.py"
_SAVE = '''    buffer = io.BytesIO()

    with ZipFile(
        buffer, "w", compression=compression, compresslevel=compresslevel
    ) as zip_file:
        save_context = SaveContext(zip_file=zip_file)
        state = get_state(obj, save_context)
        save_context.clear_memo()

        state["protocol"] = save_context.protocol
        state["_skops_version"] = skops.__version__
        zip_file.writestr("schema.json", json.dumps(state, indent=2))

    return buffer
'''
_SINK = '''    if isinstance(file, (str, Path)):
        with open(file, "wb") as f:
            f.write(buffer.getbuffer())
    else:
        file.write(buffer.getbuffer())
'''
_TREE = '''    if saved_id in load_context.memo:'''
QUIET += [
    ("per-getvalue", [(PE, _SINK, _SINK.replace("buffer.getbuffer()", "buffer.getvalue()")),
                      (PE, "return buffer.getbuffer().tobytes()", "return buffer.getvalue()")]),
    ("per-bytes-helper", [(PE, _SINK, '''    _write_sink(file, buffer.getvalue())


def _write_sink(target, payload):
    if isinstance(target, (str, Path)):
        with open(target, "wb") as f:
            f.write(payload)
        return
    target.write(payload)
''')]),
    ("per-early-return", [(PE, _SINK, '''    content = buffer.getbuffer()
    if not isinstance(file, (str, Path)):
        file.write(content)
        return

    with open(file, mode="wb") as f:
        f.write(content)
''')]),
    ("per-write-bytes", [(PE, _SINK, '''    if isinstance(file, (str, Path)):
        Path(file).write_bytes(buffer.getvalue())
    else:
        file.write(buffer.getvalue())
''')]),
    ("per-copyfileobj", [(PE, _SINK, '''    import shutil
    buffer.seek(0)
    if isinstance(file, (str, Path)):
        with open(file, "wb") as f:
            shutil.copyfileobj(buffer, f)
    else:
        file.write(buffer.getbuffer())
''')]),
    ("per-dumps-in-dump", [(PE, "    buffer = _save(obj, compression=compression, compresslevel=compresslevel)\n\n" + _SINK,
                            '''    data = dumps(obj, compression=compression, compresslevel=compresslevel)

    if isinstance(file, (str, Path)):
        with open(file, "wb") as f:
            f.write(data)
    else:
        file.write(data)
''')]),
    ("per-explicit-close", [(PE, _SAVE, '''    buffer = io.BytesIO()
    zip_file = ZipFile(
        buffer, "w", compression=compression, compresslevel=compresslevel
    )
    try:
        save_context = SaveContext(zip_file)
        state = get_state(obj, save_context)
        save_context.clear_memo()
        state.update(protocol=save_context.protocol, _skops_version=skops.__version__)
        zip_file.writestr("schema.json", json.dumps(state, indent=2))
    finally:
        zip_file.close()
    return buffer
''')]),
    ("per-merged-schema", [(PE, '''        state["protocol"] = save_context.protocol
        state["_skops_version"] = skops.__version__
        zip_file.writestr("schema.json", json.dumps(state, indent=2))
''', '''        schema = {
            **state,
            "protocol": save_context.protocol,
            "_skops_version": skops.__version__,
        }
        text = json.dumps(schema, indent=2)
        zip_file.writestr("schema.json", text.encode("utf-8"))
''')]),
    ("per-schema-helper", [(PE, _SAVE, '''    buffer = io.BytesIO()

    with ZipFile(
        buffer, "w", compression=compression, compresslevel=compresslevel
    ) as archive:
        _fill(archive, obj)

    return buffer


def _schema_text(state, protocol):
    state["protocol"] = protocol
    state["_skops_version"] = skops.__version__
    return json.dumps(state, indent=2)


def _fill(archive, obj):
    context = SaveContext(zip_file=archive)
    try:
        state = get_state(obj, context)
    finally:
        context.clear_memo()
    archive.writestr("schema.json", _schema_text(state, context.protocol))
''')]),
    ("per-clear-late", [(PE, "        save_context.clear_memo()\n\n", ""),
                        (PE, "        zip_file.writestr(\"schema.json\", json.dumps(state, indent=2))\n", "        zip_file.writestr(\"schema.json\", json.dumps(state, indent=2))\n        save_context.clear_memo()\n")]),
    ("per-noindent", [(PE, "json.dumps(state, indent=2)", "json.dumps(state)")]),
    ("utl-setdefault", [(U, "        if obj_id not in self.memo:\n            self.memo[obj_id] = obj\n        return obj_id", "        self.memo.setdefault(obj_id, obj)\n        return obj_id")]),
    ("utl-memo-always", [(U, "        if obj_id not in self.memo:\n            self.memo[obj_id] = obj\n        return obj_id", "        self.memo[obj_id] = obj\n        return obj_id")]),
    ("utl-state-merge", [(U, "    res[\"__id__\"] = __id__\n    return res\n", "    res.update({\"__id__\": __id__})\n    return res\n")]),
    ("utl-id-inline", [(U, "    __id__ = save_context.memoize(obj=value)\n", "    save_context.memoize(value)\n"), (U, "    res[\"__id__\"] = __id__\n", "    res[\"__id__\"] = id(value)\n")]),
    ("utl-check-first", [(U, "    __id__ = save_context.memoize(obj=value)\n\n    check_name(type(value), type(value).__module__)\n", "    cls = type(value)\n    check_name(cls, cls.__module__)\n    __id__ = save_context.memoize(obj=value)\n")]),
    ("num-names-var", [(NP, "            if f_name not in save_context.zip_file.namelist():\n                save_context.zip_file.writestr(f_name, data_buffer.getbuffer())\n", "            archive = save_context.zip_file\n            known = set(archive.namelist())\n            if f_name not in known:\n                archive.writestr(f_name, data_buffer.getvalue())\n")]),
    ("num-name-format", [(NP, "            f_name = f\"{obj_id}.npy\"\n", "            f_name = \"{}.npy\".format(obj_id)\n")]),
    ("num-name-percent", [(NP, "            f_name = f\"{obj_id}.npy\"\n", "            f_name = \"%s.npy\" % obj_id\n")]),
    ("num-name-plus", [(NP, "            f_name = f\"{obj_id}.npy\"\n", "            f_name = str(obj_id) + \".npy\"\n")]),
    ("num-store-helper", [(NP, '''            if f_name not in save_context.zip_file.namelist():
                save_context.zip_file.writestr(f_name, data_buffer.getbuffer())
            res.update(type="numpy", file=f_name)
''', '''            _store(save_context, f_name, data_buffer)
            res.update(type="numpy", file=f_name)
'''), (NP, "def ndarray_get_state(", '''def _store(save_context, f_name, data_buffer):
    if f_name in save_context.zip_file.namelist():
        return
    save_context.zip_file.writestr(f_name, data_buffer.getbuffer())


def ndarray_get_state(''')]),
    ("num-branch-swap", [(NP, '''        if obj.dtype == object:
            obj_serialized = get_state(obj.tolist(), save_context)
            res["content"] = obj_serialized["content"]
            res["type"] = "json"
            res["shape"] = get_state(obj.shape, save_context)
        else:
''', '''        if obj.dtype == object:
            serialized = get_state(obj.tolist(), save_context)
            shape = get_state(obj.shape, save_context)
            res.update(content=serialized["content"], type="json", shape=shape)
        else:
''')]),
    ("aud-construct-if", [(AU, '''        if self._constructed is not UNINITIALIZED:
            return self._constructed
        self._constructed = self._construct()
        return self._constructed
''', '''        if self._constructed is UNINITIALIZED:
            self._constructed = self._construct()
        return self._constructed
''')]),
    ("aud-memo-direct", [(AU, "            load_context.memoize(self, saved_id)\n", "            load_context.memo[saved_id] = self\n")]),
    ("aud-memo-is-none", [(AU, "        if saved_id and memoize:\n", "        if memoize and saved_id is not None:\n")]),
    ("gen-list-append", [(G, "    content = [get_state(value, save_context) for value in obj]\n\n    res[\"content\"] = content\n    return res\n\n\nclass ListNode", "    content = []\n    for value in obj:\n        state = get_state(value, save_context)\n        content.append(state)\n\n    res[\"content\"] = content\n    return res\n\n\nclass ListNode")]),
    ("gen-bin-name", [(G, "f_name = f\"{uuid.uuid4()}.bin\"", "f_name = uuid.uuid4().hex + \".bin\"")]),
]

MC = "skops/card/_model_card.py"
QUIET += [
    ("card-split-loop", [(MC, "    parts = (part.strip() for part in re.split(r\"(?<!\\\\)/\", key))\n    return [part.replace(\"\\\\/\", \"/\") for part in parts]", "    result = []\n    for part in re.split(r\"(?<!\\\\)/\", key):\n        name = part.strip()\n        result.append(name.replace(\"\\\\/\", \"/\"))\n    return result")]),
    ("card-split-compiled", [(MC, "    parts = (part.strip() for part in re.split(r\"(?<!\\\\)/\", key))", "    sep = re.compile(r\"(?<!\\\\)/\")\n    parts = map(str.strip, sep.split(key))")]),
    ("card-select-walk", [(MC, "        if not subsection_names:\n            return section\n\n", "")]),
    ("card-select-in", [(MC, "            section_maybe = section.get(subsection_name)\n\n            # there are already subsections\n            if section_maybe is not None:\n                section = section_maybe.subsections\n                continue\n\n            if create:", "            if subsection_name in section:\n                section = section[subsection_name].subsections\n                continue\n\n            if create:")]),
    ("card-check-helper", [(MC, "        if not key:\n            msg = f\"Section name cannot be empty but got '{key}'\"\n            raise KeyError(msg)\n\n        *subsection_names, leaf_node_name = split_subsection_names(key)\n\n        if not leaf_node_name:\n            msg = f\"Section name cannot be empty but got '{key}'\"\n            raise KeyError(msg)\n\n        parent_section = self._select(subsection_names, create=False)\n        return", "        subsection_names, leaf_node_name = self._locate(key)\n        parent_section = self._select(subsection_names, create=False)\n        return"), (MC, "    def select(self, key: str) -> Section:\n        \"\"\"Select a section from the model card.", "    @staticmethod\n    def _locate(key):\n        names = split_subsection_names(key) if key else []\n        if not names or not names[-1]:\n            raise KeyError(f\"Section name cannot be empty but got '{key}'\")\n        return names[:-1], names[-1]\n\n    def select(self, key: str) -> Section:\n        \"\"\"Select a section from the model card.")]),
    ("card-delete-popraise", [(MC, "        del parent_section[leaf_node_name]", "        parent_section.pop(leaf_node_name)")]),
    ("card-any-empty", [(MC, "if not all(bool(name) for name in section_names):", "if any(name == \"\" for name in section_names):")]),
    ("card-add-old", [(MC, "        if leaf_node_name in section:\n            # entry exists, preserve its subsections\n            old_section = section[leaf_node_name]\n", "        old_section = section.get(leaf_node_name)\n        if old_section is not None:\n")]),
    ("card-add-return", [(MC, "        section[leaf_node_name] = new_section\n        return section[leaf_node_name]", "        section.update({leaf_node_name: new_section})\n        return new_section")]),
    ("ren-list", [(MC, "            title = f\"{depth * '#'} {section.title}\"\n            yield title\n\n            yield section.format()\n", "            heading = \"#\" * depth\n            yield heading + \" \" + section.title\n            body = section.format()\n            yield body\n")]),
    ("ren-nested-if", [(MC, "            if section.subsections and not section.folded:\n                yield from self._generate_content(\n                    section.subsections,\n                    depth=depth + 1,\n                    destination_path=destination_path,\n                )", "            if section.folded or not section.subsections:\n                continue\n            for text in self._generate_content(section.subsections, depth + 1, destination_path):\n                yield text")]),
    ("ren-toc-loop", [(MC, "        sections = []\n        for title, level in self._iterate_key_section_content(self._data):\n            sections.append(f\"{'  ' * level}- {title}\")\n\n        return \"\\n\".join(sections)", "        return \"\\n\".join(\n            \"  \" * level + \"- \" + title\n            for title, level in self._iterate_key_section_content(self._data)\n        )")]),
    ("ren-save-render", [(MC, "            f.write(\"\\n\".join(self._generate_card(destination_path=destination_path)))", "            text = \"\\n\".join(self._generate_card(destination_path=destination_path))\n            f.write(text)")]),
    ("ren-save-bytes", [(MC, "with open(path, \"w\", encoding=\"utf-8\") as f:", "with open(path, mode=\"wt\", encoding=\"UTF-8\") as f:")]),
    ("ren-details", [(MC, "    if not folded:\n        return text\n    return f\"<details>\\n<summary> Click to expand </summary>\\n\\n{text}\\n\\n</details>\"", "    if folded:\n        text = \"<details>\\n<summary> Click to expand </summary>\\n\\n\" + text + \"\\n\\n</details>\"\n    return text")]),
    ("ren-visible-filter", [(MC, "        for section in data.values():\n            if not section.visible:\n                continue\n", "        shown = [section for section in data.values() if section.visible]\n        for section in shown:\n")]),
    ("ren-getcard", [(MC, "            if line:\n                yield \"\\n\" + line\n", "            if not line:\n                continue\n            yield f\"\\n{line}\"\n")]),
]

UP = "skops/cli/_update.py"
CV = "skops/cli/_convert.py"
QUIET += [
    ("upd-helper", [(UP, "    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:\n        tmp_output_file = Path(tmp_dir) / f\"{output_path.name}.tmp\"\n        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n", "    _write_atomically(input_model, output_path)\n"), (UP, "def _update_file(", "def _write_atomically(model, path):\n    folder, name = os.path.split(path)\n    with tempfile.TemporaryDirectory(dir=folder or None or \".\") as tmp_dir:\n        tmp = os.path.join(tmp_dir, name)\n        dump(model, tmp)\n        os.replace(tmp, path)\n\n\ndef _update_file(")]),
    ("upd-nested", [(UP, "    if input_file_schema[\"protocol\"] == PROTOCOL:", "    protocol = input_file_schema[\"protocol\"]\n    if protocol >= PROTOCOL and not protocol > PROTOCOL:"), (UP, "    if input_file_schema[\"protocol\"] > PROTOCOL:", "    if not protocol <= PROTOCOL:")]),
    ("upd-elif", [(UP, "        return None\n\n    if input_file_schema[\"protocol\"] > PROTOCOL:", "        return None\n    elif input_file_schema[\"protocol\"] > PROTOCOL:")]),
    ("upd-guard-first", [(UP, "    if inplace:\n        if output_file is None:\n            output_file = input_file\n        else:\n            raise ValueError(", "    if inplace and output_file is None:\n        output_file = input_file\n    else:\n        if inplace:\n            raise ValueError(")]),
    ("upd-path-replace", [(UP, "os.replace(tmp_output_file, output_path)", "tmp_output_file.replace(output_path)")]),
    ("upd-mkdtemp", [(UP, "    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:\n        tmp_output_file = Path(tmp_dir) / f\"{output_path.name}.tmp\"\n        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n", "    tmp_dir = tempfile.mkdtemp(dir=output_path.parent)\n    try:\n        tmp_output_file = Path(tmp_dir) / \"new.tmp\"\n        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n    finally:\n        shutil.rmtree(tmp_dir)\n"), (UP, "import os\n", "import os\nimport shutil\n")]),
    ("upd-types-var", [(UP, "    input_model = load(input_file, trusted=get_untrusted_types(file=input_file))\n", "    unknown = get_untrusted_types(file=input_file)\n    logger.debug(\"types: %s\", unknown)\n    input_model = load(file=input_file, trusted=sorted(unknown))\n")]),
    ("upd-open-dump", [(UP, "        dump(input_model, tmp_output_file)\n", "        with open(tmp_output_file, \"wb\") as f:\n            dump(input_model, f)\n")]),
    ("upd-dumps", [(UP, "        dump(input_model, tmp_output_file)\n", "        tmp_output_file.write_bytes(dumps(input_model))\n"), (UP, "import dump, get", "import dump, dumps, get")]),
    ("upd-schema-helper", [(UP, "    with zipfile.ZipFile(input_file, \"r\") as zip_file:\n        input_file_schema = json.loads(zip_file.read(\"schema.json\"))\n", "    input_file_schema = _read_schema(input_file)\n"), (UP, "def _update_file(", "def _read_schema(path):\n    with zipfile.ZipFile(path) as archive:\n        with archive.open(\"schema.json\") as f:\n            return json.load(f)\n\n\ndef _update_file(")]),
    ("cnv-helper", [(CV, "    with open(input_file, \"rb\") as f:\n        obj = pickle.load(f)\n    skops_dump = dumps(obj)\n", "    skops_dump = dumps(_unpickle(input_file))\n"), (CV, "def _convert_file(", "def _unpickle(path):\n    with open(path, \"rb\") as f:\n        return pickle.load(f)\n\n\ndef _convert_file(")]),
    ("cnv-bytes", [(CV, "    with open(input_file, \"rb\") as f:\n        obj = pickle.load(f)\n", "    obj = pickle.loads(pathlib.Path(input_file).read_bytes())\n"), (CV, "    with open(output_file, \"wb\") as out_file:\n        logger.debug(f\"Writing to {output_file}\")\n        out_file.write(skops_dump)\n", "    pathlib.Path(output_file).write_bytes(skops_dump)\n")]),
    ("cnv-if", [(CV, "    if not untrusted_types:\n        logger.info(f\"No unknown types found in {model_name}.\")\n    else:\n", "    if len(untrusted_types) == 0:\n        logger.info(f\"No unknown types found in {model_name}.\")\n    if untrusted_types:\n")]),
    ("cnv-lazy-log", [(CV, "        logger.warning(\n            f\"While converting {input_file}, \"\n            \"the following unknown types were found: \"\n            f\"{untrusted_str}. \"\n            f\"When loading {output_file} with skops.load, these types must be \"\n            \"specified as 'trusted'\"\n        )", "        logger.warning(\n            \"While converting %s, the following unknown types were found: %s.\",\n            input_file,\n            untrusted_str,\n        )")]),
    ("cnv-ospath", [(CV, "        file_name = pathlib.Path(input_file).stem\n        output_file = pathlib.Path.cwd() / f\"{file_name}.skops\"", "        file_name, _ = os.path.splitext(os.path.basename(input_file))\n        output_file = os.path.join(os.getcwd(), file_name + \".skops\")")]),
    ("cnv-relative", [(CV, "        output_file = pathlib.Path.cwd() / f\"{file_name}.skops\"", "        output_file = file_name + \".skops\"")]),
    ("cnv-write-first", [(CV, "    untrusted_types = get_untrusted_types(data=skops_dump)\n", "    untrusted_types = get_untrusted_types(data=skops_dump)\n    with open(output_file, \"wb\") as out_file:\n        out_file.write(skops_dump)\n"), (CV, "    with open(output_file, \"wb\") as out_file:\n        logger.debug(f\"Writing to {output_file}\")\n        out_file.write(skops_dump)\n\n\ndef format", "\n\ndef format")]),
    ("cnv-dump", [(CV, "    with open(output_file, \"wb\") as out_file:\n        logger.debug(f\"Writing to {output_file}\")\n        out_file.write(skops_dump)\n", "    dump(obj, output_file)\n"), (CV, "from skops.io import dumps,", "from skops.io import dump, dumps,")]),
]

CELL = "            values = [re.sub(r\"\\r\\n?|\\n\", \"<br />\", str(value)) for value in values]\n"
NAME = "            name = re.sub(r\"\\r\\n?|\\n\", \"<br />\", str(key))\n"
QUIET += [
    ("bld-helper", [(MC, NAME + CELL, "            name = _one_line(key)\n            values = [_one_line(value) for value in values]\n"), (MC, "@dataclass\nclass TableSection", "def _one_line(value):\n    text = str(value)\n    for br in (\"\\r\\n\", \"\\r\", \"\\n\"):\n        text = text.replace(br, \"<br />\")\n    return text\n\n\n@dataclass\nclass TableSection")]),
    ("bld-const", [(MC, NAME + CELL, "            name = _BREAK.sub(\"<br />\", str(key))\n            values = [_BREAK.sub(\"<br />\", f\"{value}\") for value in values]\n"), (MC, "@dataclass\nclass TableSection", "_BREAK = re.compile(\"\\r\\n|\\r|\\n\")\n\n\n@dataclass\nclass TableSection")]),
    ("bld-addrow", [(MC, "            table.add_column(name, values)\n", "            names.append(name)\n            columns.append(values)\n"), (MC, "        for key, values in self.table.items():", "        names, columns = [], []\n        for key, values in self.table.items():"), (MC, "        table = table.get_string()\n", "        table.field_names = names\n        table.add_rows(list(zip(*columns)))\n        table = table.get_string()\n")]),
    ("bld-loop", [(MC, CELL, "            cells = []\n            for value in values:\n                cell = re.sub(r\"\\r\\n?|\\n\", \"<br />\", str(value))\n                cells.append(cell)\n            values = cells\n")]),
    ("bld-dict-df", [(MC, "        for key, values in self.table.items():", "        source = self.table.to_dict(\"list\") if self._is_pandas_df else self.table\n        for key, values in source.items():")]),
    ("bld-index", [(MC, "        for key, values in self.table.items():", "        for key in self.table:\n            values = self.table[key]")]),
    ("bld-hand", [(MC, "            table.add_column(name, values)\n", "            names.append(name)\n            columns.append(values)\n"), (MC, "        for key, values in self.table.items():", "        names, columns = [], []\n        for key, values in self.table.items():"), (MC, "        table = table.get_string()\n", "        lines = [\"| \" + \" | \".join(names) + \" |\", \"|\" + \"|\".join(\" --- \" for _ in names) + \"|\"]\n        for row in zip(*columns):\n            lines.append(\"| \" + \" | \".join(row) + \" |\")\n        table = \"\\n\".join(lines)\n")]),
    ("bld-met-loop", [(MC, "self._metrics.update(kwargs)", "for key, val in kwargs.items():\n            self._metrics[key] = val")]),
    ("bld-met-table", [(MC, "        if self._metrics:\n            # transpose from row oriented to column oriented\n            data_transposed = zip(*self._metrics.items())\n            table = {\n                key: list(val) for key, val in zip([\"Metric\", \"Value\"], data_transposed)\n            }\n        else:\n            # create empty table\n            table = {\"Metric\": [], \"Value\": []}\n", "        table = {\"Metric\": list(metrics), \"Value\": list(metrics.values())}\n")]),
    ("bld-hyp-loop", [(MC, "        table = {\"Hyperparameter\": list(params.keys()), \"Value\": list(params.values())}\n", "        table = {\"Hyperparameter\": [], \"Value\": []}\n        for name, value in params.items():\n            table[\"Hyperparameter\"].append(name)\n            table[\"Value\"].append(value)\n")]),
    ("bld-title-helper", [(MC, "            title = split_subsection_names(section_name)[-1]\n            section = PlotSection(", "            *_, title = split_subsection_names(section_name)\n            section = PlotSection(")]),
    ("bld-alt-if", [(MC, "            section = PlotSection(\n                title=title,\n                content=description,\n                alt_text=alt_text or title,\n", "            alt = alt_text if alt_text else title\n            section = PlotSection(\n                title=title,\n                content=description,\n                alt_text=alt,\n")]),
    ("bld-desc", [(MC, "            section = PlotSection(\n                title=title,\n                content=description,\n", "            section = PlotSection(\n                title=title,\n                content=description or \"\",\n")]),

    # ---- C15
    ("prs-helper", [(PP, "                while section_levels and section_levels[-1] >= level:\n                    section_levels.pop()\n", "                self._close(section_levels, level)\n"), (PP, "    def generate(self) -> Card:", "    @staticmethod\n    def _close(levels, level):\n        while levels and levels[-1] >= level:\n            del levels[-1]\n\n    def generate(self) -> Card:")]),
    ("prs-keep", [(PP, "                while section_levels and section_levels[-1] >= level:\n                    section_levels.pop()\n", "                keep = 0\n                for known in section_levels:\n                    if known >= level:\n                        break\n                    keep += 1\n                section_levels = section_levels[:keep]\n")]),
    ("prs-stack", [(PP, "                section_trace = section_trace[: len(section_levels)] + [res]\n", "                del section_trace[len(section_levels):]\n                section_trace.append(res)\n")]),
    ("prs-join", [(PP, "            section.content = section.content + \"\\n\\n\" + content", "            section.content = \"\\n\\n\".join([section.content, content])")]),
    ("prs-fstr", [(PP, "            section.content = section.content + \"\\n\\n\" + content", "            section.content = f\"{section.content}\\n\\n{content}\"")]),
    ("prs-count", [(PP, "        key, count = section_name, 1\n        while key in siblings:\n            count += 1\n            key = f\"{section_name} ({count})\"\n", "        key = section_name\n        for count in itertools.count(2):\n            if key not in siblings:\n                break\n            key = f\"{section_name} ({count})\"\n"), (PP, "import json\n", "import itertools\nimport json\n")]),
    ("prs-blocks", [(PP, "        for item in json.loads(self.source)[\"blocks\"]:\n", "        document = json.loads(self.source)\n        blocks = document[\"blocks\"]\n        for item in blocks:\n")]),
    ("prs-header-first", [(PP, "            if item[\"t\"] == \"Header\":\n                content, level = self._parse_header(item, section_trace=section_trace)\n                res = self._post_process(content)\n", "            is_header = item[\"t\"] == \"Header\"\n            if is_header:\n                level = item[\"c\"][0]\n                res = self._post_process(self.mapping(item))\n")]),
    ("mkd-join", [(MU, "        parts = [\"**\"]\n        parts += [self.__call__(subitem) for subitem in value]\n        parts.append(\"**\")\n        return \"\".join(parts)\n", "        return f\"**{self._make_content(value)}**\"\n")]),
    ("mkd-list-comp", [(MU, "            for subitem in item:\n                parts.append(self._make_list_item(subitem, list_marker=list_marker))\n", "            parts = [self._make_list_item(subitem, list_marker=list_marker) for subitem in item]\n")]),
    ("mkd-counter", [(MU, "            for i, subitem in enumerate(items, start=start):\n                parts.append(self._make_list_item(subitem, list_marker=f\"{i}.\"))\n", "            number = start\n            for subitem in items:\n                parts.append(self._make_list_item(subitem, list_marker=f\"{number}.\"))\n                number += 1\n")]),
    ("mkd-trace-concat", [(MU, "        self._indent_trace.append(spaces)\n        try:\n            yield\n        finally:\n            self._indent_trace.pop(-1)\n", "        before = self._indent_trace\n        self._indent_trace = before + [spaces]\n        try:\n            yield\n        finally:\n            self._indent_trace = before\n")]),
    ("mkd-getattr", [(MU, "            res = self.mapping[type_](value)\n", "            handler = self.mapping[type_]\n            res = handler(value)\n")]),
    ("mkd-tab-dict", [(MU, "            data_transposed = zip(*body)\n            table = {key: val for key, val in zip(columns, data_transposed)}\n", "            table = dict(zip(columns, zip(*body)))\n")]),
    ("mkd-tab-index", [(MU, "            data_transposed = zip(*body)\n            table = {key: val for key, val in zip(columns, data_transposed)}\n", "            table = {key: [row[i] for row in body] for i, key in enumerate(columns)}\n")]),
    ("mkd-quote-prefix", [(MU, "        parts = []\n        for subitem in item:\n            content = self.__call__(subitem)\n            # add quote symbolx\n            content = content.replace(\"\\n\", \"\\n> \")\n            parts.append(content)\n\n        # add a quote symbol to the very start\n        text = \"> \" + \"\\n> \".join(parts)\n        return text\n", "        lines = []\n        for subitem in item:\n            lines += self.__call__(subitem).split(\"\\n\")\n        return \"\\n\".join(f\"> {line}\" for line in lines)\n")]),
    ("mkd-star", [(MU, "        parts = [\"_\"]\n", "        parts = [\"*\"]\n"), (MU, "        parts.append(\"_\")\n", "        parts.append(\"*\")\n")]),
    ("mkd-div-kvs", [(MU, "            for k, v in kvs:\n                if not v:  # e.g. just ['hidden', '']\n                    kvparts.append(k)\n                else:\n                    kvparts.append(f'{k}=\"{v}\"')\n", "            kvparts = [f'{k}=\"{v}\"' if v else k for k, v in kvs]\n")]),
]

QUIET += [
    ("q-gettype-lru", [(U, "def _import_obj(module: str, cls_or_func: str, package: str | None = None) -> Any:\n", "@functools.lru_cache(maxsize=None)\ndef _import_obj(module: str, cls_or_func: str, package: str | None = None) -> Any:\n"), (U, "import importlib\n", "import functools\nimport importlib\n")]),
    ("q-open-archive", [(PE, "def load(file: str | Path,", "def _read_schema(archive):\n    return json.loads(archive.read(\"schema.json\"))\n\n\ndef load(file: str | Path,"), (PE, "        schema = json.loads(input_zip.read(\"schema.json\"))\n", "        schema = _read_schema(input_zip)\n"), (PE, "        schema = json.loads(zip_file.read(\"schema.json\"))\n        load_context = LoadContext(src=zip_file, protocol=schema[\"protocol\"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n", "        schema = _read_schema(zip_file)\n        load_context = LoadContext(src=zip_file, protocol=schema[\"protocol\"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n")]),
    ("q-values-comp", [(NP, "            values = []\n            for index in np.ndindex(*shape):\n                value = tmp\n                for i in index:\n                    value = value[i]\n                values.append(value)\n", "            def lookup(index):\n                value = tmp\n                for i in index:\n                    value = value[i]\n                return value\n\n            values = [lookup(index) for index in np.ndindex(*shape)]\n")]),
    ("q-paths-iadd", [(AU, "        return get_type_paths(trusted) + get_type_paths(default)\n", "        paths = []\n        paths += get_type_paths(trusted)\n        paths += get_type_paths(default)\n        return paths\n")]),
    ("q-plot-helper", [(MC, "        ax.set_title(plot_name)\n        ax.set_xlabel(\"Decrease in Score\")\n        fig.savefig(plot_file)\n", "        self._label_axes(ax, plot_name)\n        fig.savefig(plot_file)\n"), (MC, "    def add_fairlearn_metric_frame(\n", "    @staticmethod\n    def _label_axes(ax, title):\n        ax.set_title(title)\n        ax.set_xlabel(\"Decrease in Score\")\n\n    def add_fairlearn_metric_frame(\n")]),
    ("q-section-factory", [(MC, "    subsections: dict[str, Section] = field(default_factory=dict)\n", "    subsections: dict[str, Section] = field(default_factory=lambda: {})\n")]),
    ("q-rng-names", [(NP, "        bit_generator = BIT_GENERATORS[content[\"bit_generator\"]]()\n        random_state = gettype(self.module_name, self.class_name)(bit_generator)\n", "        name = content[\"bit_generator\"]\n        bit_generator_cls = BIT_GENERATORS[name]\n        random_state_cls = gettype(self.module_name, self.class_name)\n        random_state = random_state_cls(bit_generator_cls())\n")]),
    ("q-memo-field", [(U, "    protocol: int\n    memo: dict[int, Any] = field(default_factory=dict)\n", "    protocol: int\n    memo: dict[int, Any] = field(default_factory=lambda: {}, repr=False)\n")]),
    ("q-unsafe-try", [(AU, "        unsafe = tree.get_unsafe_set()\n" if False else "    unsafe = tree.get_unsafe_set()\n    if unsafe:\n        raise UntrustedTypesFoundException(unsafe)\n", "    unsafe = tree.get_unsafe_set()\n    if len(unsafe) > 0:\n        error = UntrustedTypesFoundException(unsafe)\n        raise error\n")]),
    ("q-metrics-local", [(MC, "        self._metrics: dict[str, str | float | int] = {}\n", "        metrics: dict[str, str | float | int] = {}\n        self._metrics = metrics\n")]),
]

# larger, structural rewrites
CV = "skops/cli/_convert.py"
UPD = "skops/cli/_update.py"
_UNS = AU, "            for child in self.children.values():\n                if child is None:\n                    continue\n"
QUIET += [
    ("zz-unsafe-method", [
        (AU, "            for child in self.children.values():\n                if child is None:\n                    continue\n\n                # Get the safety set based on the type of the child. In most cases\n                # other than ListNode and DictNode, children are all of type Node.\n                if isinstance(child, list):\n                    # iterate through the list\n                    for value in child:\n                        res.update(value.get_unsafe_set())\n                elif isinstance(child, dict):\n                    # iterate through the values of the dict only\n                    # TODO: should we check the types of the keys?\n                    for value in child.values():\n                        res.update(value.get_unsafe_set())\n                elif isinstance(child, Node):\n                    # delegate to the child Node\n                    res.update(child.get_unsafe_set())\n                elif type(child) is type:\n                    # the if condition bellow is not merged with the previous\n                    # one because if the above condition is True, the following\n                    # conditions about BytesIO, etc should be ignored.\n                    if not check_type(get_module(child), child.__name__, self.trusted):\n                        # if the child is a type, we check its safety\n                        res.add(get_module(child) + \".\" + child.__name__)\n                elif isinstance(child, (io.BytesIO, str)):\n                    # We trust BytesIO objects, which are read by other\n                    # libraries such as numpy, scipy. We trust str but have to\n                    # be careful that anything with str is dealt with\n                    # appropriately.\n                    continue\n                else:\n                    raise ValueError(\n                        f\"Cannot determine the safety of type {type(child)}. Please\"\n                        \" open an issue at https://github.com/skops-dev/skops/issues\"\n                        \" for us to fix the issue.\"\n                    )\n",
         "            for child in self.children.values():\n                res |= self._child_unsafe_set(child)\n"),
        (AU, "    def format(self) -> str:\n        \"\"\"Representation of the node's content.\"\"\"\n", "    def _child_unsafe_set(self, child) -> set[str]:\n        \"\"\"The unsafe types of one child\"\"\"\n        if child is None or isinstance(child, (io.BytesIO, str)):\n            return set()\n        if isinstance(child, Node):\n            return child.get_unsafe_set()\n        if isinstance(child, (list, dict)):\n            nodes = child.values() if isinstance(child, dict) else child\n            return set().union(*(node.get_unsafe_set() for node in nodes))\n        if type(child) is type:\n            module = get_module(child)\n            name = child.__name__\n            return set() if check_type(module, name, self.trusted) else {f\"{module}.{name}\"}\n        raise ValueError(\n            f\"Cannot determine the safety of type {type(child)}. Please\"\n            \" open an issue at https://github.com/skops-dev/skops/issues\"\n            \" for us to fix the issue.\"\n        )\n\n    def format(self) -> str:\n        \"\"\"Representation of the node's content.\"\"\"\n")]),
    ("zz-unsafe-nodes", [
        (AU, "                if isinstance(child, list):\n                    # iterate through the list\n                    for value in child:\n                        res.update(value.get_unsafe_set())\n                elif isinstance(child, dict):\n                    # iterate through the values of the dict only\n                    # TODO: should we check the types of the keys?\n                    for value in child.values():\n                        res.update(value.get_unsafe_set())\n                elif isinstance(child, Node):\n                    # delegate to the child Node\n                    res.update(child.get_unsafe_set())\n", "                nodes = None\n                if isinstance(child, list):\n                    nodes = child\n                elif isinstance(child, dict):\n                    nodes = list(child.values())\n                elif isinstance(child, Node):\n                    nodes = [child]\n\n                if nodes is not None:\n                    for node in nodes:\n                        res = res.union(node.get_unsafe_set())\n")]),
    ("zz-reentry-flag", [
        (AU, "        if hasattr(self, \"_computing_unsafe_set\"):\n", "        if getattr(self, \"_computing_unsafe_set\", False):\n"),
        (AU, "        return res\n\n    def format", "        return res\n\n    def format")]),
    ("zz-temp-inline", [
        (AU, "    existing_attrs = {k for k in kwargs.keys() if hasattr(obj, k)}\n    previous_values = {k: getattr(obj, k, None) for k in kwargs}\n    for k, v in kwargs.items():\n        setattr(obj, k, v)\n    try:\n        yield\n    finally:\n        for k, v in previous_values.items():\n            if k in existing_attrs:\n                setattr(obj, k, v)\n            else:\n                delattr(obj, k)\n", "    missing = object()\n    previous = {name: getattr(obj, name, missing) for name in kwargs}\n    for name in kwargs:\n        setattr(obj, name, kwargs[name])\n    try:\n        yield\n    finally:\n        for name, value in previous.items():\n            if value is missing:\n                delattr(obj, name)\n            else:\n                setattr(obj, name, value)\n")]),
    ("zz-gettree-get", [
        (AU, "    if key in NODE_TYPE_MAPPING:\n        node_cls = NODE_TYPE_MAPPING[key]\n    else:\n", "    node_cls = NODE_TYPE_MAPPING.get(key)\n    if node_cls is None:\n")]),
    ("zz-gettree-loop", [
        (AU, "    loader: str = state[\"__loader__\"]\n    protocol = load_context.protocol\n    key = (loader, protocol)\n\n    if key in NODE_TYPE_MAPPING:\n        node_cls = NODE_TYPE_MAPPING[key]\n    else:\n        # What probably happened here is that we released a new protocol. If\n        # there is no specific key for the old protocol, it means it is safe to\n        # use the current protocol instead, because this node was not changed.\n        key_new = (loader, PROTOCOL)\n        try:\n            node_cls = NODE_TYPE_MAPPING[key_new]\n        except KeyError:\n            # If we still cannot find the loader for this key, something went\n            # wrong.\n            type_name = f\"{state['__module__']}.{state['__class__']}\"\n            raise TypeError(\n                f\" Can't find loader {state['__loader__']} for type {type_name} and \"\n                f\"protocol {protocol}. You might need to update skops to load this \"\n                \"file.\"\n            )\n\n    loaded_tree = node_cls(state, load_context, trusted=trusted)\n    return loaded_tree\n",
         "    node_cls = _find_node_class(state, load_context.protocol)\n    return node_cls(state, load_context, trusted=trusted)\n\n\ndef _find_node_class(state: dict[str, Any], protocol: int) -> Type[Node]:\n    loader: str = state[\"__loader__\"]\n    for version in (protocol, PROTOCOL):\n        if (loader, version) in NODE_TYPE_MAPPING:\n            return NODE_TYPE_MAPPING[(loader, version)]\n    type_name = f\"{state['__module__']}.{state['__class__']}\"\n    raise TypeError(\n        f\" Can't find loader {loader} for type {type_name} and \"\n        f\"protocol {protocol}. You might need to update skops to load this \"\n        \"file.\"\n    )\n")]),
    ("zz-gettree-memo", [
        (AU, "    saved_id = state.get(\"__id__\")\n    if saved_id in load_context.memo:\n        # This means the node is already loaded, so we return it. Note that the\n        # node is not constructed at this point. It will be constructed when\n        # the parent node's ``construct`` method is called, and for this node\n        # it'll be called more than once. But that's not an issue since the\n        # node's ``construct`` method caches the instance.\n        return load_context.get_object(saved_id)\n", "    known = load_context.get_object(state.get(\"__id__\"))\n    if known is not None:\n        return known\n")]),
    ("zz-issafe", [
        (AU, "        # if trusted is set to True, we don't do any safety checks.\n        if self.trusted is True:\n            return True\n\n        return len(self.get_unsafe_set()) == 0\n", "        return self.trusted is True or not self.get_unsafe_set()\n")]),
    ("zz-fullname", [
        (AU, "                res.add(self.module_name + \".\" + self.class_name)\n", "                res.add(self._full_name())\n"),
        (AU, "        return check_type(self.module_name, self.class_name, self.trusted)\n", "        return self._full_name() in self.trusted\n\n    def _full_name(self) -> str:\n        return f\"{self.module_name}.{self.class_name}\"\n")]),
    ("zz-load-shared", [
        (PE, "    with ZipFile(file, \"r\") as input_zip:\n        schema = json.loads(input_zip.read(\"schema.json\"))\n        load_context = LoadContext(src=input_zip, protocol=schema[\"protocol\"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n", "    return _load(file, trusted)\n"),
        (PE, "    with ZipFile(io.BytesIO(data), \"r\") as zip_file:\n        schema = json.loads(zip_file.read(\"schema.json\"))\n        load_context = LoadContext(src=zip_file, protocol=schema[\"protocol\"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n", "    return _load(io.BytesIO(data), trusted)\n"),
        (PE, "def load(file: str | Path,", "def _read_tree(archive: ZipFile, trusted: Optional[Sequence[str]]):\n    schema = json.loads(archive.read(\"schema.json\"))\n    context = LoadContext(src=archive, protocol=schema[\"protocol\"])\n    return get_tree(schema, context, trusted=trusted)\n\n\ndef _load(source: Any, trusted: Optional[Sequence[str]]) -> Any:\n    with ZipFile(source, \"r\") as archive:\n        tree = _read_tree(archive, trusted)\n        audit_tree(tree)\n        return tree.construct()\n\n\ndef load(file: str | Path,"),
        (PE, "        schema = json.loads(zip_file.read(\"schema.json\"))\n        load_context = LoadContext(src=zip_file, protocol=schema[\"protocol\"])\n        tree = get_tree(schema, load_context=load_context, trusted=None)\n        untrusted_types = tree.get_unsafe_set()\n\n    return sorted(untrusted_types)\n", "        return sorted(_read_tree(zip_file, None).get_unsafe_set())\n")]),
    ("zz-loads-load", [
        (PE, "    with ZipFile(io.BytesIO(data), \"r\") as zip_file:\n        schema = json.loads(zip_file.read(\"schema.json\"))\n        load_context = LoadContext(src=zip_file, protocol=schema[\"protocol\"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n", "    return load(io.BytesIO(data), trusted=trusted)  # type: ignore\n")]),
    ("zz-trusted-check", [
        (PE, "    if isinstance(data, str):\n        raise TypeError(\"Can't load skops format from string, pass bytes\")\n\n    if trusted is True:\n        raise TypeError(\n            \"trusted must be a list of strings. Before version 0.10 trusted could \"\n            \"be a boolean, but this is no longer supported, due to a reported \"\n            \"CVE-2024-37065. You can pass the output of `get_untrusted_types` as \"\n            \"trusted to load the data. Be sure to review the output of the function \"\n            \"before passing it as trusted.\"\n        )\n", "    if isinstance(data, str):\n        raise TypeError(\"Can't load skops format from string, pass bytes\")\n\n    _check_trusted(trusted)\n"),
        (PE, "def loads(data", "def _check_trusted(trusted):\n    if trusted is not True:\n        return\n    raise TypeError(\n        \"trusted must be a list of strings. Before version 0.10 trusted could \"\n        \"be a boolean, but this is no longer supported, due to a reported \"\n        \"CVE-2024-37065. You can pass the output of `get_untrusted_types` as \"\n        \"trusted to load the data. Be sure to review the output of the function \"\n        \"before passing it as trusted.\"\n    )\n\n\ndef loads(data")]),
    ("zz-register-fn", [
        (PE, "for module_name in modules:\n    # register exposed functions for get_state and get_tree\n    module = importlib.import_module(module_name, package=\"skops.io\")\n    for cls, method in getattr(module, \"GET_STATE_DISPATCH_FUNCTIONS\", []):\n        _get_state.register(cls)(method)\n    # populate the the dict used for dispatching get_tree functions\n    NODE_TYPE_MAPPING.update(module.NODE_TYPE_MAPPING)\n", "def _register_module(module_name: str) -> None:\n    # register exposed functions for get_state and get_tree\n    module = importlib.import_module(module_name, package=\"skops.io\")\n    if hasattr(module, \"GET_STATE_DISPATCH_FUNCTIONS\"):\n        for cls, method in module.GET_STATE_DISPATCH_FUNCTIONS:\n            _get_state.register(cls, method)\n    # populate the the dict used for dispatching get_tree functions\n    for key, node_cls in module.NODE_TYPE_MAPPING.items():\n        NODE_TYPE_MAPPING[key] = node_cls\n\n\nfor module_name in modules:\n    _register_module(module_name)\n")]),
    ("zz-save-schema", [
        (PE, "        state[\"protocol\"] = save_context.protocol\n        state[\"_skops_version\"] = skops.__version__\n        zip_file.writestr(\"schema.json\", json.dumps(state, indent=2))\n", "        schema = {**state, \"protocol\": save_context.protocol, \"_skops_version\": skops.__version__}\n        zip_file.writestr(\"schema.json\", json.dumps(schema, indent=2))\n")]),
    ("zz-dump-stack", [
        (PE, "    if isinstance(file, (str, Path)):\n        with open(file, \"wb\") as f:\n            f.write(buffer.getbuffer())\n    else:\n        file.write(buffer.getbuffer())\n", "    content = buffer.getbuffer()\n    with contextlib.ExitStack() as stack:\n        if isinstance(file, (str, Path)):\n            stream = stack.enter_context(open(file, \"wb\"))\n        else:\n            stream = file\n        stream.write(content)\n"),
        (PE, "import importlib\n", "import contextlib\nimport importlib\n")]),
    ("zz-typepaths-loop", [
        (U, "    return [get_type_name(t) if not isinstance(t, str) else t for t in types]\n", "    paths = []\n    for t in types:\n        if isinstance(t, str):\n            paths.append(t)\n        else:\n            paths.append(get_type_name(t))\n    return paths\n")]),
    ("zz-which-skip", [
        (U, "    module_name = getattr(obj, \"__module__\", None)\n    if module_name is not None:\n        return module_name\n", "    own_module = getattr(obj, \"__module__\", None)\n    if own_module is not None:\n        return own_module\n    skipped = (\"__main__\", \"__mp_main__\")  # bpo-42406\n"),
        (U, "        if (\n            module_name == \"__main__\"\n            or module_name == \"__mp_main__\"  # bpo-42406\n            or module is None\n        ):\n            continue\n", "        if module_name in skipped or module is None:\n            continue\n")]),
    ("zz-getstate-item", [
        (U, "    __id__ = save_context.memoize(obj=value)\n\n    check_name(type(value), type(value).__module__)\n    res = _get_state(value, save_context)\n\n    res[\"__id__\"] = __id__\n    return res\n", "    obj_id = save_context.memoize(value)\n    cls = type(value)\n    check_name(cls, cls.__module__)\n    state = _get_state(value, save_context)\n    state.update(__id__=obj_id)\n    return state\n")]),
    ("zz-dict-helper", [
        (G, "        self.children = {\n            \"key_types\": get_tree(state[\"key_types\"], load_context, trusted=trusted),\n            \"content\": {\n                key: get_tree(value, load_context, trusted=trusted)\n                for key, value in state[\"content\"].items()\n            },\n        }\n\n    def _construct(self):\n        content = gettype(self.module_name, self.class_name)()\n", "        build = partial(get_tree, load_context=load_context, trusted=trusted)\n        content = {}\n        for key in state[\"content\"]:\n            content[key] = build(state[\"content\"][key])\n        key_types = build(state[\"key_types\"])\n        self.children = {\"key_types\": key_types, \"content\": content}\n\n    def _construct(self):\n        content = gettype(self.module_name, self.class_name)()\n")]),
    ("zz-seq-base", [
        (G, "class SetNode(Node):\n    def __init__(\n        self,\n        state: dict[str, Any],\n        load_context: LoadContext,\n        trusted: Optional[Sequence[str]] = None,\n    ) -> None:\n        super().__init__(state, load_context, trusted)\n        self.trusted = self._get_trusted(trusted, [set])\n        self.children = {\n            \"content\": [\n                get_tree(value, load_context, trusted=trusted)\n                for value in state[\"content\"]\n            ]\n        }\n\n    def _construct(self):\n        content_type = gettype(self.module_name, self.class_name)\n        return content_type([item.construct() for item in self.children[\"content\"]])\n", "class SetNode(ListNode):\n    def __init__(\n        self,\n        state: dict[str, Any],\n        load_context: LoadContext,\n        trusted: Optional[Sequence[str]] = None,\n    ) -> None:\n        super().__init__(state, load_context, trusted)\n        self.trusted = self._get_trusted(trusted, [set])\n")]),
    ("zz-fn-set", [
        (G, "        fn_name = self._get_function_name()\n        if (self.trusted is True) or (fn_name in self.trusted):\n            return set()\n\n        return {fn_name}\n", "        name = self._get_function_name()\n        trusted = self.trusted is True or name in self.trusted\n        return set() if trusted else {name}\n")]),
    ("zz-card-walk", [
        (MC, "        for subsection_name in subsection_names:\n            section_maybe = section.get(subsection_name)\n\n            # there are already subsections\n            if section_maybe is not None:\n                section = section_maybe.subsections\n                continue\n\n            if create:\n                # no subsection, create\n                entry = Section(title=subsection_name, content=\"\")\n                section[subsection_name] = entry\n                section = entry.subsections\n            else:\n                raise KeyError(f\"Section {subsection_name} does not exist\")\n\n        return section\n", "        for name in subsection_names:\n            if name not in section:\n                if not create:\n                    raise KeyError(f\"Section {name} does not exist\")\n                section[name] = Section(title=name, content=\"\")\n            section = section[name].subsections\n\n        return section\n")]),
    ("zz-card-recursive", [
        (MC, "        for subsection_name in subsection_names:\n            section_maybe = section.get(subsection_name)\n\n            # there are already subsections\n            if section_maybe is not None:\n                section = section_maybe.subsections\n                continue\n\n            if create:\n                # no subsection, create\n                entry = Section(title=subsection_name, content=\"\")\n                section[subsection_name] = entry\n                section = entry.subsections\n            else:\n                raise KeyError(f\"Section {subsection_name} does not exist\")\n\n        return section\n", "        def descend(sections, names):\n            if not names:\n                return sections\n            first, *rest = names\n            entry = sections.get(first)\n            if entry is None:\n                if not create:\n                    raise KeyError(f\"Section {first} does not exist\")\n                entry = sections[first] = Section(title=first, content=\"\")\n            return descend(entry.subsections, rest)\n\n        return descend(section, list(subsection_names))\n")]),
    ("zz-card-leaf", [
        (MC, "        if not key:\n            msg = f\"Section name cannot be empty but got '{key}'\"\n            raise KeyError(msg)\n\n        *subsection_names, leaf_node_name = split_subsection_names(key)\n\n        if not leaf_node_name:\n            msg = f\"Section name cannot be empty but got '{key}'\"\n            raise KeyError(msg)\n\n        parent_section = self._select(subsection_names, create=False)\n        return parent_section[leaf_node_name]\n", "        parent_section, leaf_node_name = self._find(key)\n        return parent_section[leaf_node_name]\n\n    def _find(self, key):\n        names = None\n        if key:\n            names = split_subsection_names(key) if isinstance(key, str) else list(key)\n        if not names or not names[-1]:\n            raise KeyError(f\"Section name cannot be empty but got '{key}'\")\n        return self._select(names[:-1], create=False), names[-1]\n"),
        (MC, "        if not key:\n            msg = f\"Section name cannot be empty but got '{key}'\"\n            raise KeyError(msg)\n\n        if isinstance(key, str):\n            *subsection_names, leaf_node_name = split_subsection_names(key)\n        else:\n            *subsection_names, leaf_node_name = key\n\n        if not leaf_node_name:\n            msg = f\"Section name cannot be empty but got '{key}'\"\n            raise KeyError(msg)\n\n        parent_section = self._select(subsection_names, create=False)\n        del parent_section[leaf_node_name]\n", "        parent_section, leaf_node_name = self._find(key)\n        del parent_section[leaf_node_name]\n")]),
    ("zz-split-manual", [
        (MC, "    parts = (part.strip() for part in re.split(r\"(?<!\\\\)/\", key))\n    return [part.replace(\"\\\\/\", \"/\") for part in parts]\n", "    names = []\n    for part in re.split(r\"(?<!\\\\)/\", key):\n        name = part.strip()\n        if \"\\\\/\" in name:\n            name = name.replace(\"\\\\/\", \"/\")\n        names.append(name)\n    return names\n")]),
    ("zz-upd-split", [
        (UPD, "    # The temporary directory is next to the output file, i.e. on the same file system,\n    # so that the complete file can be put in place atomically.\n    output_path = Path(output_file)\n    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:\n        tmp_output_file = Path(tmp_dir) / f\"{output_path.name}.tmp\"\n        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n", "    _write_atomically(input_model, Path(output_file))\n"),
        (UPD, "def format_parser(", "def _write_atomically(model, target: Path) -> None:\n    # The temporary directory is next to the output file, i.e. on the same file system,\n    # so that the complete file can be put in place atomically.\n    with tempfile.TemporaryDirectory(dir=target.parent) as folder:\n        complete = Path(folder, target.name + \".tmp\")\n        dump(model, complete)\n        complete.replace(target)\n\n\ndef format_parser(")]),
    ("zz-upd-reason", [
        (UPD, "    if input_file_schema[\"protocol\"] == PROTOCOL:\n        logger.warning(\n            \"File was not updated because already up to date with the current protocol:\"\n            f\" {PROTOCOL}\"\n        )\n        return None\n\n    if input_file_schema[\"protocol\"] > PROTOCOL:\n        logger.warning(\n            \"File cannot be updated because its protocol is more recent than the \"\n            f\"current protocol: {PROTOCOL}\"\n        )\n        return None\n\n    if output_file is None:\n        logger.warning(\n            f\"File can be updated to the current protocol: {PROTOCOL}. Please\"\n            \" specify an output file path or use the `inplace` flag to create the\"\n            \" updated Skops file.\"\n        )\n        return None\n", "    message = None\n    input_protocol = input_file_schema[\"protocol\"]\n    if input_protocol == PROTOCOL:\n        message = (\n            \"File was not updated because already up to date with the current protocol:\"\n            f\" {PROTOCOL}\"\n        )\n    elif input_protocol > PROTOCOL:\n        message = (\n            \"File cannot be updated because its protocol is more recent than the \"\n            f\"current protocol: {PROTOCOL}\"\n        )\n    elif output_file is None:\n        message = (\n            f\"File can be updated to the current protocol: {PROTOCOL}. Please\"\n            \" specify an output file path or use the `inplace` flag to create the\"\n            \" updated Skops file.\"\n        )\n    if message is not None:\n        logger.warning(message)\n        return None\n")]),
    ("zz-upd-readproto", [
        (UPD, "    with zipfile.ZipFile(input_file, \"r\") as zip_file:\n        input_file_schema = json.loads(zip_file.read(\"schema.json\"))\n\n    if input_file_schema[\"protocol\"] == PROTOCOL:", "    protocol = _read_protocol(input_file)\n\n    if protocol == PROTOCOL:"),
        (UPD, "    if input_file_schema[\"protocol\"] > PROTOCOL:", "    if protocol > PROTOCOL:"),
        (UPD, "def _update_file(", "def _read_protocol(path: str | Path) -> int:\n    with zipfile.ZipFile(path, \"r\") as archive, archive.open(\"schema.json\") as f:\n        return json.load(f)[\"protocol\"]\n\n\ndef _update_file(")]),
    ("zz-cnv-report", [
        (CV, "    if not untrusted_types:\n        logger.info(f\"No unknown types found in {model_name}.\")\n    else:\n        untrusted_str = \", \".join(untrusted_types)\n\n        logger.warning(\n            f\"While converting {input_file}, \"\n            \"the following unknown types were found: \"\n            f\"{untrusted_str}. \"\n            f\"When loading {output_file} with skops.load, these types must be \"\n            \"specified as 'trusted'\"\n        )\n", "    _report(untrusted_types, model_name, input_file, output_file, logger)\n"),
        (CV, "def _convert_file(", "def _report(types, model_name, source, target, logger):\n    if types:\n        names = \", \".join(types)\n        logger.warning(\n            \"While converting %s, the following unknown types were found: %s. When loading\"\n            \" %s with skops.load, these types must be specified as 'trusted'\",\n            source,\n            names,\n            target,\n        )\n        return\n    logger.info(f\"No unknown types found in {model_name}.\")\n\n\ndef _convert_file(")]),
    ("zz-cnv-default", [
        (CV, "    if not output_file:\n        # No filename provided, defaulting to base file path\n        file_name = pathlib.Path(input_file).stem\n        output_file = pathlib.Path.cwd() / f\"{file_name}.skops\"\n\n    _convert_file(\n        input_file=input_file,\n        output_file=output_file,\n    )\n", "    _convert_file(\n        input_file=input_file,\n        output_file=output_file or _default_output(input_file),\n    )\n"),
        (CV, "def main(", "def _default_output(input_file):\n    # No filename provided, defaulting to base file path\n    return pathlib.Path.cwd().joinpath(pathlib.Path(input_file).stem + \".skops\")\n\n\ndef main(")]),
    ("zz-cnv-write", [
        (CV, "    with open(output_file, \"wb\") as out_file:\n        logger.debug(f\"Writing to {output_file}\")\n        out_file.write(skops_dump)\n", "    logger.debug(f\"Writing to {output_file}\")\n    pathlib.Path(output_file).write_bytes(skops_dump)\n"),
        (CV, "    with open(input_file, \"rb\") as f:\n        obj = pickle.load(f)\n    skops_dump = dumps(obj)\n", "    skops_dump = dumps(pickle.loads(pathlib.Path(input_file).read_bytes()))\n")]),
]

# second structural batch
QUIET += [
    ('yy-nd-write', [('skops/io/_numpy.py', '            obj_id = save_context.memoize(obj)\n            f_name = f"{obj_id}.npy"\n            if f_name not in save_context.zip_file.namelist():\n                save_context.zip_file.writestr(f_name, data_buffer.getbuffer())\n            res.update(type="numpy", file=f_name)\n', '            res["type"] = "numpy"\n            res["file"] = _write_member(save_context, obj, data_buffer)\n'), ('skops/io/_numpy.py', 'class NdArrayNode(Node):\n', 'def _write_member(save_context, obj, buffer):\n    name = "{}.npy".format(save_context.memoize(obj))\n    members = save_context.zip_file.namelist()\n    if name in members:\n        return name\n    save_context.zip_file.writestr(name, buffer.getvalue())\n    return name\n\n\nclass NdArrayNode(Node):\n')]),
    ('yy-nd-split', [('skops/io/_numpy.py', '        # Dealing with a regular numpy array, where dtype != object\n        if self.type == "numpy":\n            content = np.load(self.children["content"], allow_pickle=False)\n            if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":\n                cls = gettype(self.module_name, self.class_name)\n                # the constructor of an array type does not take its content\n                content = (\n                    content.view(cls)\n                    if issubclass(cls, np.ndarray)\n                    else cls(content)\n                )\n            return content\n\n        if self.type == "json":\n            # We explicitly set the dtype to "O" since we only save object\n            # arrays in json.\n            shape = self.children["shape"].construct()\n            tmp = [o.construct() for o in self.children["content"]]\n\n            # Place the elements one by one, since numpy would interpret elements\n            # that are sequences as further dimensions.\n            values = []\n            for index in np.ndindex(*shape):\n                value = tmp\n                for i in index:\n                    value = value[i]\n                values.append(value)\n            content = np.ndarray(shape=shape, dtype="O")\n            for index, value in zip(np.ndindex(*shape), values):\n                content[index] = value\n\n            if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":\n                content = content.view(gettype(self.module_name, self.class_name))\n            return content\n\n        raise ValueError(f"Unknown type for a numpy object: {self.type}.")\n', '        if self.type == "numpy":\n            return self._construct_plain()\n        if self.type == "json":\n            return self._construct_objects()\n        raise ValueError(f"Unknown type for a numpy object: {self.type}.")\n\n    def _is_plain_array(self):\n        return (self.module_name, self.class_name) == ("numpy", "ndarray")\n\n    def _construct_plain(self):\n        # Dealing with a regular numpy array, where dtype != object\n        content = np.load(self.children["content"], allow_pickle=False)\n        if self._is_plain_array():\n            return content\n        cls = gettype(self.module_name, self.class_name)\n        # the constructor of an array type does not take its content\n        if issubclass(cls, np.ndarray):\n            return content.view(cls)\n        return cls(content)\n\n    def _construct_objects(self):\n        shape = self.children["shape"].construct()\n        nested = [node.construct() for node in self.children["content"]]\n        # Place the elements one by one, since numpy would interpret elements\n        # that are sequences as further dimensions.\n        values = [self._lookup(nested, index) for index in np.ndindex(*shape)]\n        content = np.ndarray(shape=shape, dtype="O")\n        for index, value in zip(np.ndindex(*shape), values):\n            content[index] = value\n        if not self._is_plain_array():\n            content = content.view(gettype(self.module_name, self.class_name))\n        return content\n\n    @staticmethod\n    def _lookup(nested, index):\n        for i in index:\n            nested = nested[i]\n        return nested\n')]),
    ('yy-ma-loop', [('skops/io/_numpy.py', '        "content": {\n            "data": get_state(obj.data, save_context),\n            "mask": get_state(obj.mask, save_context),\n            "hardmask": get_state(obj.hardmask, save_context),\n        },\n    }\n', '        "content": {\n            name: get_state(getattr(obj, name), save_context)\n            for name in ("data", "mask", "hardmask")\n        },\n    }\n'), ('skops/io/_numpy.py', '        self.children = {\n            "data": get_tree(state["content"]["data"], load_context, trusted=trusted),\n            "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),\n        }\n        # archives written by older versions don\'t have these\n        for key in ("hardmask", "fill_value"):\n            if key in state["content"]:\n                self.children[key] = get_tree(\n                    state["content"][key], load_context, trusted=trusted\n                )\n', '        content = state["content"]\n        # archives written by older versions have neither hardmask nor fill_value\n        keys = ["data", "mask"]\n        keys += [key for key in ("hardmask", "fill_value") if key in content]\n        self.children = {\n            key: get_tree(content[key], load_context, trusted=trusted) for key in keys\n        }\n')]),
    ('yy-gen-local', [('skops/io/_numpy.py', '        # first restore the state of the bit generator\n        seed_seq_cls = gettype(\n            "numpy.random.bit_generator",\n            "SeedSequence",\n        )\n        seed_seq_state = self.children["seed_seq_state"].construct()\n        seed_seq = seed_seq_cls(**seed_seq_state)\n\n        bit_generator_state = self.children["bit_generator_state"].construct()\n        bit_generator_cls = BIT_GENERATORS[bit_generator_state["bit_generator"]]\n        bit_generator = bit_generator_cls(seed_seq)\n        bit_generator.state = bit_generator_state\n\n        # next create the generator instance\n        return gettype(self.module_name, self.class_name)(bit_generator=bit_generator)\n', '        generator_cls = gettype(self.module_name, self.class_name)\n        return generator_cls(bit_generator=self._bit_generator())\n\n    def _bit_generator(self):\n        seed_seq = np.random.SeedSequence(**self.children["seed_seq_state"].construct())\n        state = self.children["bit_generator_state"].construct()\n        bit_generator = BIT_GENERATORS[state["bit_generator"]](seed_seq)\n        bit_generator.state = state\n        return bit_generator\n')]),
    ('yy-obj-json', [('skops/io/_general.py', '    try:\n        # if we can simply use json, then we\'re done.\n        obj_str = json.dumps(obj)\n        # subclasses, e.g. an IntEnum, would be loaded as the builtin type\n        if type(json.loads(obj_str)) is type(obj):\n            return {\n                "__class__": "str",\n                "__module__": "builtins",\n                "__loader__": "JsonNode",\n                "content": obj_str,\n                "is_json": True,\n            }\n    except Exception:\n        pass\n', '    obj_str = _as_json(obj)\n    if obj_str is not None:\n        return {\n            "__class__": "str",\n            "__module__": "builtins",\n            "__loader__": "JsonNode",\n            "content": obj_str,\n            "is_json": True,\n        }\n'), ('skops/io/_general.py', 'def object_get_state(', "def _as_json(obj: Any) -> Optional[str]:\n    try:\n        # if we can simply use json, then we're done.\n        text = json.dumps(obj)\n        # subclasses, e.g. an IntEnum, would be loaded as the builtin type\n        same_type = type(json.loads(text)) is type(obj)\n    except Exception:\n        return None\n    return text if same_type else None\n\n\ndef object_get_state(")]),
    ('yy-obj-refuse', [('skops/io/_general.py', '    if isinstance(reduce_output, tuple):\n        constructor, args = reduce_output[:2]\n        if (\n            (constructor is type(obj) and args)\n            or (constructor is copyreg._reconstructor and args[1] is not object)\n            or any(item is not None for item in reduce_output[3:])\n        ):\n            raise UnsupportedTypeException(obj)\n', '    if isinstance(reduce_output, tuple):\n        constructor, args, *rest = reduce_output\n        if constructor is type(obj) and args:\n            raise UnsupportedTypeException(obj)\n        if constructor is copyreg._reconstructor and args[1] is not object:\n            raise UnsupportedTypeException(obj)\n        for item in rest[1:]:\n            if item is not None:\n                raise UnsupportedTypeException(obj)\n')]),
    ('yy-obj-setattrs', [('skops/io/_general.py', '        if not self.children["attrs"]:\n            # nothing more to do\n            return instance\n\n        attrs = self.children["attrs"].construct()\n        if attrs is not None:\n            if hasattr(instance, "__setstate__"):\n                instance.__setstate__(attrs)\n            else:\n                instance.__dict__.update(attrs)\n\n        return instance\n\n\ndef method', '        attrs_node = self.children["attrs"]\n        attrs = attrs_node.construct() if attrs_node else None\n        if attrs is not None:\n            self._set_attrs(instance, attrs)\n        return instance\n\n    @staticmethod\n    def _set_attrs(instance, attrs):\n        if hasattr(instance, "__setstate__"):\n            instance.__setstate__(attrs)\n            return\n        instance.__dict__.update(attrs)\n\n\ndef method')]),
    ('yy-obj-content', [('skops/io/_general.py', '        content = state.get("content")\n        if content is not None:\n            attrs = get_tree(content, load_context, trusted=trusted)\n        else:\n            attrs = None\n\n        self.children = {"attrs": attrs}\n', '        self.children = {"attrs": None}\n        if state.get("content") is not None:\n            self.children["attrs"] = get_tree(state["content"], load_context, trusted=trusted)\n')]),
    ('yy-method-name', [('skops/io/_general.py', '        obj = self.children["obj"]\n        type_name = f"{obj.class_name}.{self.func}"\n        if not check_type(obj.module_name, type_name, self.trusted):\n            res.add(f"{obj.module_name}.{type_name}")\n        return res\n', '        name = self._method_name()\n        if name not in self.trusted:\n            res = res | {name}\n        return res\n\n    def _method_name(self) -> str:\n        obj = self.children["obj"]\n        return ".".join([obj.module_name, obj.class_name, self.func])\n')]),
    ('yy-reduce-attrs', [('skops/io/_sklearn.py', '    if len(reduced) == 3:\n        # reduce includes what\'s needed for __getstate__ and we don\'t need to\n        # call __getstate__ directly.\n        attrs = reduced[2]\n    elif hasattr(obj, "__getstate__"):\n        # since python311 __getstate__ is defined for `object` and might return\n        # None\n        attrs = obj.__getstate__() or {}\n    elif hasattr(obj, "__dict__"):\n        attrs = obj.__dict__\n    else:\n        attrs = {}\n\n    if not isinstance(attrs, (dict, tuple)):\n', '    attrs = _reduced_attrs(obj, reduced)\n    if not isinstance(attrs, (dict, tuple)):\n'), ('skops/io/_sklearn.py', 'def reduce_get_state(', 'def _reduced_attrs(obj: Any, reduced: Any) -> Any:\n    if len(reduced) == 3:\n        # reduce includes what\'s needed for __getstate__ and we don\'t need to\n        # call __getstate__ directly.\n        return reduced[2]\n    if hasattr(obj, "__getstate__"):\n        # since python311 __getstate__ is defined for `object` and might return\n        # None\n        return obj.__getstate__() or {}\n    return getattr(obj, "__dict__", {})\n\n\ndef reduce_get_state(')]),
    ('yy-reduce-construct', [('skops/io/_sklearn.py', '        if isinstance(args, tuple) and not hasattr(instance, "__setstate__"):\n            raise UnsupportedTypeException(\n                f"Objects of type {constructor} are not supported yet"\n            )\n\n        if hasattr(instance, "__setstate__"):\n            instance.__setstate__(attrs)\n        elif isinstance(attrs, dict):\n            instance.__dict__.update(attrs)\n        else:\n            # we (probably) got tuple attrs but cannot setstate with them\n            raise UnsupportedTypeException(\n                f"Objects of type {constructor} are not supported yet"\n            )\n\n        return instance\n', '        if hasattr(instance, "__setstate__"):\n            instance.__setstate__(attrs)\n            return instance\n\n        if isinstance(args, tuple) or not isinstance(attrs, dict):\n            # we (probably) got tuple attrs but cannot setstate with them\n            raise UnsupportedTypeException(\n                f"Objects of type {constructor} are not supported yet"\n            )\n        instance.__dict__.update(attrs)\n        return instance\n')]),
    ('yy-loss-header', [('skops/io/_sklearn.py', '        state = {\n            "__class__": obj.__class__.__name__,\n            "__module__": get_module(type(obj)),\n            "__loader__": "LossNode",\n        }\n        state["__reduce__"] = {}\n        state["__reduce__"]["args"] = get_state(reduce[1][2], save_context)\n        state["content"] = get_state({}, save_context)\n', '        cls = type(obj)\n        args = get_state(reduce[1][2], save_context)\n        state = {\n            "__class__": cls.__name__,\n            "__module__": get_module(cls),\n            "__loader__": "LossNode",\n            "__reduce__": {"args": args},\n            "content": get_state({}, save_context),\n        }\n')]),
    ('yy-walk-one-loop', [('skops/io/_visualize.py', '    if isinstance(node, dict):\n        num_nodes = len(node)\n        for i, (key, val) in enumerate(node.items(), start=1):\n            yield from walk_tree(\n                val,\n                node_name=key,\n                level=level,\n                is_last=i == num_nodes,\n            )\n        return\n\n    if isinstance(node, (list, tuple)):\n        num_nodes = len(node)\n        for i, val in enumerate(node, start=1):\n            yield from walk_tree(\n                val,\n                node_name=node_name,\n                level=level,\n                is_last=i == num_nodes,\n            )\n        return\n', '    if isinstance(node, (dict, list, tuple)):\n        if isinstance(node, dict):\n            named = list(node.items())\n        else:\n            named = [(node_name, val) for val in node]\n        last = len(named) - 1\n        for i, (name, val) in enumerate(named):\n            yield from walk_tree(val, node_name=name, level=level, is_last=i == last)\n        return\n')]),
    ('yy-walk-children', [('skops/io/_visualize.py', '    children = node.children\n    if isinstance(node, DictNode) and children["key_types"].is_safe():\n        # key_types is not helpful, as it is artificially added by skops to\n        # circumvent the fact that json only allows keys to be strings. It is not\n        # useful to the user and adds a lot of noise, thus skip key_types.\n        children = {key: val for key, val in children.items() if key != "key_types"}\n\n    yield from walk_tree(\n        children,\n        node_name=node_name,\n        level=level + 1,\n    )\n', '    yield from walk_tree(\n        _visible_children(node),\n        node_name=node_name,\n        level=level + 1,\n    )\n'), ('skops/io/_visualize.py', 'def walk_tree(\n', 'def _visible_children(node):\n    children = node.children\n    if not isinstance(node, DictNode):\n        return children\n    if not children["key_types"].is_safe():\n        return children\n    # key_types is not helpful, as it is artificially added by skops to\n    # circumvent the fact that json only allows keys to be strings. It is not\n    # useful to the user and adds a lot of noise, thus skip key_types.\n    visible = {}\n    for key, val in children.items():\n        if key == "key_types":\n            continue\n        visible[key] = val\n    return visible\n\n\ndef walk_tree(\n')]),
    ('yy-print-prefix', [('skops/io/_visualize.py', '            print(prefix, end="")\n            if node.is_last:\n                print("└──", end="")\n                prefix += "    "\n            else:\n                print("├──", end="")\n                prefix += "│   "\n\n            print(f" {node.key}: {label}")\n', '            connector, indent = ("└──", "    ") if node.is_last else ("├──", "│   ")\n            print(f"{prefix}{connector} {node.key}: {label}")\n            prefix = prefix + indent\n')]),
    ('yy-parse-header', [('skops/card/_parser.py', '            if item["t"] == "Header":\n                content, level = self._parse_header(item, section_trace=section_trace)\n                res = self._post_process(content)\n                # the parent is the closest preceding header of a lower level\n                while section_levels and section_levels[-1] >= level:\n                    section_levels.pop()\n                section_trace = section_trace[: len(section_levels)] + [res]\n                section_levels.append(level)\n                section = self._add_section(res, card=card, section_trace=section_trace)\n            else:\n                res = self._post_process(self.mapping(item))\n                self._add_content(res, section=section)\n', '            if item["t"] != "Header":\n                self._add_content(self._post_process(self.mapping(item)), section=section)\n                continue\n\n            content, level = self._parse_header(item, section_trace=section_trace)\n            title = self._post_process(content)\n            # the parent is the closest preceding header of a lower level\n            depth = len(section_levels)\n            while depth > 0 and section_levels[depth - 1] >= level:\n                depth -= 1\n            section_levels = section_levels[:depth] + [level]\n            section_trace = section_trace[:depth] + [title]\n            section = self._add_section(title, card=card, section_trace=section_trace)\n')]),
    ('yy-parse-key', [('skops/card/_parser.py', '        key, count = section_name, 1\n        while key in siblings:\n            count += 1\n            key = f"{section_name} ({count})"\n        siblings[key] = cur_section\n        section_trace[-1] = key\n        return cur_section\n', '        key = self._free_key(section_name, siblings)\n        siblings[key] = cur_section\n        section_trace[-1] = key\n        return cur_section\n\n    @staticmethod\n    def _free_key(title, siblings):\n        if title not in siblings:\n            return title\n        number = 2\n        while f"{title} ({number})" in siblings:\n            number += 1\n        return f"{title} ({number})"\n')]),
    ('yy-post-pairs', [('skops/card/_parser.py', '        res = res.replace("\\xa0", " ")\n\n        # pandoc creates ☒ and ☐ for to do items but GitHub requires [x] and [ ]\n        # for an item to be considered a to do item\n        res = res.replace("- ☒", "- [x]").replace("- ☐", "- [ ]")\n        return res\n', '        # pandoc creates ☒ and ☐ for to do items but GitHub requires [x] and [ ]\n        # for an item to be considered a to do item\n        replacements = {"\\xa0": " ", "- ☒": "- [x]", "- ☐": "- [ ]"}\n        for old, new in replacements.items():\n            res = res.replace(old, new)\n        return res\n')]),
    ('yy-content-filter', [('skops/card/_model_card.py', '        for section in data.values():\n            if not section.visible:\n                continue\n\n            title = f"{depth * \'#\'} {section.title}"\n            yield title\n\n            yield section.format()\n', '        shown = [section for section in data.values() if section.visible]\n        hashes = "#" * depth\n        for section in shown:\n            yield f"{hashes} {section.title}"\n            yield section.format()\n')]),
    ('yy-content-stack', [('skops/card/_model_card.py', '            if section.subsections and not section.folded:\n                yield from self._generate_content(\n                    section.subsections,\n                    depth=depth + 1,\n                    destination_path=destination_path,\n                )\n\n    def _iterate_content(', '            if section.folded or not section.subsections:\n                continue\n            for line in self._generate_content(\n                section.subsections, depth + 1, destination_path\n            ):\n                yield line\n\n    def _iterate_content(')]),
    ('yy-toc-join', [('skops/card/_model_card.py', '        sections = []\n        for title, level in self._iterate_key_section_content(self._data):\n            sections.append(f"{\'  \' * level}- {title}")\n\n        return "\\n".join(sections)\n', '        def entry(title, level):\n            return "  " * level + "- " + title\n\n        return "\\n".join(\n            entry(*item) for item in self._iterate_key_section_content(self._data)\n        )\n')]),
    ('yy-save-text', [('skops/card/_model_card.py', '        with open(path, "w", encoding="utf-8") as f:\n            if not isinstance(path, Path):\n                path = Path(path)\n            destination_path = path.parent if copy_files else None\n            f.write("\\n".join(self._generate_card(destination_path=destination_path)))\n', '        path = Path(path)\n        destination_path = path.parent if copy_files else None\n        with path.open("w", encoding="utf-8") as f:\n            lines = self._generate_card(destination_path=destination_path)\n            f.write("\\n".join(lines))\n')]),
    ('yy-card-lines', [('skops/card/_model_card.py', '        for line in self._generate_content(\n            self._data, destination_path=destination_path\n        ):\n            if line:\n                yield "\\n" + line\n\n        # add an empty line add the end\n        yield ""\n', '        lines = self._generate_content(self._data, destination_path=destination_path)\n        yield from (f"\\n{line}" for line in lines if line)\n        # add an empty line add the end\n        yield ""\n')]),
    ('yy-metrics-cols', [('skops/card/_model_card.py', '        if self._metrics:\n            # transpose from row oriented to column oriented\n            data_transposed = zip(*self._metrics.items())\n            table = {\n                key: list(val) for key, val in zip(["Metric", "Value"], data_transposed)\n            }\n        else:\n            # create empty table\n            table = {"Metric": [], "Value": []}\n\n        description = description or ""\n        title = split_subsection_names(section_name)[-1]\n        section = TableSection(title=title, content=description, table=table)\n        self._add_single(section_name, section)\n', '        table = {\n            "Metric": list(self._metrics.keys()),\n            "Value": list(self._metrics.values()),\n        }\n        *_, title = split_subsection_names(section_name)\n        self._add_single(\n            section_name,\n            TableSection(title=title, content=description or "", table=table),\n        )\n')]),
    ('yy-table-escape', [('skops/card/_model_card.py', '            name = re.sub(r"\\r\\n?|\\n", "<br />", str(key))\n            values = [re.sub(r"\\r\\n?|\\n", "<br />", str(value)) for value in values]\n            table.add_column(name, values)\n', '            table.add_column(self._cell(key), [self._cell(value) for value in values])\n'), ('skops/card/_model_card.py', '    def format(self) -> str:\n        table = PrettyTable()\n', '    @staticmethod\n    def _cell(value: Any) -> str:\n        return re.sub(r"\\r\\n?|\\n", "<br />", str(value))\n\n    def format(self) -> str:\n        table = PrettyTable()\n')]),
    ('yy-table-rows', [('skops/card/_model_card.py', '            name = re.sub(r"\\r\\n?|\\n", "<br />", str(key))\n            values = [re.sub(r"\\r\\n?|\\n", "<br />", str(value)) for value in values]\n            table.add_column(name, values)\n', '            cells = []\n            for value in [key, *values]:\n                text = str(value).replace("\\r\\n", "\\n").replace("\\r", "\\n")\n                cells.append(text.replace("\\n", "<br />"))\n            name, *rest = cells\n            table.add_column(name, rest)\n')]),
    ('yy-section-reduce', [('skops/card/_model_card.py', '        section: Section = self\n        for section_name in section_names:\n            section = section.subsections[section_name]\n        return section\n', '        def child(section, name):\n            return section.subsections[name]\n\n        return functools.reduce(child, section_names, self)\n'), ('skops/card/_model_card.py', 'import re\n', 'import functools\nimport re\n')]),
    ('yy-section-index', [('skops/card/_model_card.py', '        if not all(bool(name) for name in section_names):\n            msg = f"Section name cannot be empty but got \'{key}\'"\n            raise KeyError(msg)\n\n        section: Section = self\n        for section_name in section_names:\n            section = section.subsections[section_name]\n        return section\n', '        for name in section_names:\n            if name == "":\n                raise KeyError(f"Section name cannot be empty but got \'{key}\'")\n\n        section: Section = self\n        while section_names:\n            section = section.subsections[section_names.pop(0)]\n        return section\n')]),
    ('yy-add-single', [('skops/card/_model_card.py', '        if leaf_node_name in section:\n            # entry exists, preserve its subsections\n            old_section = section[leaf_node_name]\n            if new_section.subsections and (\n                new_section.subsections != old_section.subsections\n            ):\n                msg = (\n                    f"Trying to override section \'{leaf_node_name}\' but found "\n                    "conflicting subsections."\n                )\n                raise ValueError(msg)\n            new_section.subsections = old_section.subsections\n\n        section[leaf_node_name] = new_section\n        return section[leaf_node_name]\n', '        old_section = section.get(leaf_node_name)\n        if old_section is not None:\n            self._keep_subsections(leaf_node_name, old_section, new_section)\n\n        section[leaf_node_name] = new_section\n        return new_section\n\n    @staticmethod\n    def _keep_subsections(name: str, old: Section, new: Section) -> None:\n        # entry exists, preserve its subsections\n        kept = old.subsections\n        if new.subsections and new.subsections != kept:\n            raise ValueError(\n                f"Trying to override section \'{name}\' but found "\n                "conflicting subsections."\n            )\n        new.subsections = kept\n')]),
    ('yy-plot-alt', [('skops/card/_model_card.py', '        # if no alt text provided, fall back to figure path\n        alt_text = self.alt_text or self.path\n        text = f"![{alt_text}]({self.path})"\n        val = wrap_as_details(text, folded=self.folded)\n        if self.content:\n            val = f"{self.content}\\n\\n{val}"\n        return val\n', '        parts = [self.content] if self.content else []\n        # if no alt text provided, fall back to figure path\n        alt = self.alt_text if self.alt_text else self.path\n        parts.append(wrap_as_details("![{}]({})".format(alt, self.path), folded=self.folded))\n        return "\\n\\n".join(parts)\n')]),
    ('yy-getuntrusted', [('skops/io/_persist.py', '    content: io.BytesIO | str | Path\n    if data:\n        content = io.BytesIO(data)\n    else:\n        # mypy doesn\'t understand that file cannot be None here, thus ignore\n        content = file  # type: ignore\n\n    with ZipFile(content, "r") as zip_file:\n', '    with ZipFile(io.BytesIO(data) if data else file, "r") as zip_file:  # type: ignore\n')]),
    ('yy-walrus', [('skops/io/_audit.py', '    unsafe = tree.get_unsafe_set()\n    if unsafe:\n        raise UntrustedTypesFoundException(unsafe)\n', '    if unsafe := tree.get_unsafe_set():\n        raise UntrustedTypesFoundException(unsafe)\n')]),
    ('yy-stack-load', [('skops/io/_persist.py', '    with ZipFile(io.BytesIO(data), "r") as zip_file:\n        schema = json.loads(zip_file.read("schema.json"))\n        load_context = LoadContext(src=zip_file, protocol=schema["protocol"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        instance = tree.construct()\n\n    return instance\n', '    with contextlib.ExitStack() as stack:\n        buffer = stack.enter_context(io.BytesIO(data))\n        zip_file = stack.enter_context(ZipFile(buffer, "r"))\n        schema = json.loads(zip_file.read("schema.json"))\n        load_context = LoadContext(src=zip_file, protocol=schema["protocol"])\n        tree = get_tree(schema, load_context, trusted=trusted)\n        audit_tree(tree)\n        return tree.construct()\n'), ('skops/io/_persist.py', 'import importlib\n', 'import contextlib\nimport importlib\n')]),
]

# third structural batch
QUIET += [
    ('xx-mu-div', [('skops/card/_markup.py', '        if classes:\n            classes = " ".join(classes)\n            tags.append(f\' class="{classes}"\')\n        if kvs:\n            kvparts = []\n            for k, v in kvs:\n                if not v:  # e.g. just [\'hidden\', \'\']\n                    kvparts.append(k)\n                else:\n                    kvparts.append(f\'{k}="{v}"\')\n            tags.append(f\' {" ".join(kvparts)}\')\n        tags.append(">")\n\n        start = "".join(tags)\n', '        if classes:\n            tags.append(\' class="{}"\'.format(" ".join(classes)))\n        tags.extend(" " + self._attribute(key, value) for key, value in kvs)\n        start = "".join(tags) + ">"\n'), ('skops/card/_markup.py', '    def _parse_div(self, item) -> str:\n', '    @staticmethod\n    def _attribute(key, value):\n        return f\'{key}="{value}"\' if value else key\n\n    def _parse_div(self, item) -> str:\n')]),
    ('xx-mu-enclosed', [('skops/card/_markup.py', '        parts = ["**"]\n        parts += [self.__call__(subitem) for subitem in value]\n        parts.append("**")\n        return "".join(parts)\n', '        return self._enclosed(value, "**")\n\n    def _enclosed(self, value, symbol):\n        text = "".join(map(self, value))\n        return symbol + text + symbol\n'), ('skops/card/_markup.py', '        parts = ["_"]\n        parts += [self.__call__(subitem) for subitem in value]\n        parts.append("_")\n        return "".join(parts)\n', '        return self._enclosed(value, "_")\n'), ('skops/card/_markup.py', '        parts = ["~~"]\n        parts += [self.__call__(subitem) for subitem in value]\n        parts.append("~~")\n        return "".join(parts)\n', '        return self._enclosed(value, symbol="~~")\n')]),
    ('xx-mu-call', [('skops/card/_markup.py', '        type_, value = item["t"], item.get("c")\n        try:\n            res = self.mapping[type_](value)\n        except KeyError as exc:\n            msg = (\n                f"The parsed document contains \'{type_}\', which is not "\n                "supported yet, please open an issue on GitHub"\n            )\n            raise ValueError(msg) from exc\n\n        # recursively call until the value has been resolved into a str\n        return self.__call__(res)', '        while not isinstance(item, str):\n            type_, value = item["t"], item.get("c")\n            try:\n                item = self.mapping[type_](value)\n            except KeyError as exc:\n                msg = (\n                    f"The parsed document contains \'{type_}\', which is not "\n                    "supported yet, please open an issue on GitHub"\n                )\n                raise ValueError(msg) from exc\n        return item')]),
    ('xx-mu-unique', [('skops/card/_markup.py', '        for i, column in enumerate(columns):\n            while column in columns[:i]:\n                column += " "\n            columns[i] = column\n', '        columns = self._unique(columns)\n'), ('skops/card/_markup.py', '    def _parse_div(self, item) -> str:\n', '    @staticmethod\n    def _unique(names):\n        seen: list[str] = []\n        for name in names:\n            while name in seen:\n                name = name + " "\n            seen.append(name)\n        return seen\n\n    def _parse_div(self, item) -> str:\n')]),
    ('xx-mu-transpose', [('skops/card/_markup.py', '        if not body:\n            table = {key: [] for key in columns}\n        else:\n            # body is row oriented, transpose to column oriented\n            data_transposed = zip(*body)\n            table = {key: val for key, val in zip(columns, data_transposed)}\n\n        res = TableSection(title="", content="", table=table).format()\n        return res\n', '        table = {name: [row[i] for row in body] for i, name in enumerate(columns)}\n        return TableSection(title="", content="", table=table).format()\n')]),
    ('xx-mu-list', [('skops/card/_markup.py', '        parts = []\n        # bullet lists use 2 spaces for indentation to align "- "\n        with self._indented(spaces=2):\n            for subitem in item:\n                parts.append(self._make_list_item(subitem, list_marker=list_marker))\n        return "\\n".join(parts)\n', '        return self._make_list([list_marker] * len(item), item, spaces=2)\n\n    def _make_list(self, markers, items, *, spaces):\n        with self._indented(spaces=spaces):\n            parts = [self._make_list_item(i, m) for i, m in zip(items, markers)]\n        return "\\n".join(parts)\n'), ('skops/card/_markup.py', '        parts = []\n        # ordered lists use 3 spaces for indentation to align "1. "\n        with self._indented(spaces=3):\n            for i, subitem in enumerate(items, start=start):\n                parts.append(self._make_list_item(subitem, list_marker=f"{i}."))\n        return "\\n".join(parts)\n', '        markers = [f"{start + i}." for i in range(len(items))]\n        return self._make_list(markers, items, spaces=3)\n')]),
    ('xx-mu-quote', [('skops/card/_markup.py', '        parts = []\n        for subitem in item:\n            content = self.__call__(subitem)\n            # add quote symbolx\n            content = content.replace("\\n", "\\n> ")\n            parts.append(content)\n\n        # add a quote symbol to the very start\n        text = "> " + "\\n> ".join(parts)\n        return text\n', '        text = "\\n".join(self.__call__(subitem) for subitem in item)\n        return "\\n".join("> " + line for line in text.split("\\n"))\n')]),
    ('xx-mu-indent', [('skops/card/_markup.py', '        self._indent_trace.append(spaces)\n        try:\n            yield\n        finally:\n            self._indent_trace.pop(-1)\n', '        before = self._indent_trace\n        self._indent_trace = before + [spaces]\n        try:\n            yield\n        finally:\n            self._indent_trace = before\n')]),
    ('xx-mu-getattr', [('skops/card/_markup.py', '        # markdown syntax dispatch table\n        self.mapping = {\n            "Space": self._space,\n            "Plain": self._plain,\n            "Str": self._str,\n            "Strong": self._strong,\n            "Emph": self._emph,\n            "Strikeout": self._strikeout,\n            "RawInline": self._raw_inline,\n            "RawBlock": self._raw_block,\n            "SoftBreak": self._soft_break,\n            "LineBreak": self._line_break,\n            "Para": self._para,\n            "Header": self._header,\n            "Image": self._image,\n            "Figure": self._figure,\n            "CodeBlock": self._code_block,\n            "Code": self._code,\n            "Table": self._table,\n            "Div": self._parse_div,\n            "Link": self._link,\n            "BulletList": self._bullet_list,\n            "OrderedList": self._ordered_list,\n            "Quoted": self._quoted,\n            "BlockQuote": self._block_quote,\n        }\n', '        self.mapping = {key: getattr(self, name) for key, name in METHODS.items()}\n'), ('skops/card/_markup.py', 'class Markdown:\n', 'METHODS = {\n    "Space": "_space",\n    "Plain": "_plain",\n    "Str": "_str",\n    "Strong": "_strong",\n    "Emph": "_emph",\n    "Strikeout": "_strikeout",\n    "RawInline": "_raw_inline",\n    "RawBlock": "_raw_block",\n    "SoftBreak": "_soft_break",\n    "LineBreak": "_line_break",\n    "Para": "_para",\n    "Header": "_header",\n    "Image": "_image",\n    "Figure": "_figure",\n    "CodeBlock": "_code_block",\n    "Code": "_code",\n    "Table": "_table",\n    "Div": "_parse_div",\n    "Link": "_link",\n    "BulletList": "_bullet_list",\n    "OrderedList": "_ordered_list",\n    "Quoted": "_quoted",\n    "BlockQuote": "_block_quote",\n}\n\n\nclass Markdown:\n')]),
    ('xx-pp-siblings', [('skops/card/_parser.py', '        key, count = section_name, 1\n        while key in siblings:\n            count += 1\n            key = f"{section_name} ({count})"\n        siblings[key] = cur_section\n', '        candidates = itertools.chain(\n            [section_name], (f"{section_name} ({n})" for n in itertools.count(2))\n        )\n        key = next(name for name in candidates if name not in siblings)\n        siblings[key] = cur_section\n'), ('skops/card/_parser.py', 'import json\n', 'import itertools\nimport json\n')]),
    ('xx-pp-headers', [('skops/card/_parser.py', '                while section_levels and section_levels[-1] >= level:\n                    section_levels.pop()\n                section_trace = section_trace[: len(section_levels)] + [res]\n                section_levels.append(level)\n', '                depth = len(section_levels)\n                while depth > 0 and section_levels[depth - 1] >= level:\n                    depth -= 1\n                section_levels = section_levels[:depth] + [level]\n                section_trace = section_trace[:depth] + [res]\n')]),
    ('xx-pp-generate', [('skops/card/_parser.py', '                res = self._post_process(self.mapping(item))\n                self._add_content(res, section=section)\n\n        return card\n', '                self._append(item, section)\n\n        return card\n\n    def _append(self, block, section):\n        text = self.mapping(block)\n        self._add_content(section=section, content=self._post_process(text))\n')]),
    ('xx-pp-content', [('skops/card/_parser.py', '        if not section.content:\n            section.content = content\n        elif isinstance(section.content, str):\n            section.content = section.content + "\\n\\n" + content\n        else:  # pragma: no cover\n            # TODO: Content is a Formattable, no generic way to modify it --\n            # should we require each Formattable to have an update method?\n            raise ValueError(f"Could not modify content of {section.content}")\n', '        present = section.content\n        if present and not isinstance(present, str):\n            raise ValueError(f"Could not modify content of {present}")\n        section.content = "\\n\\n".join([present, content]) if present else content\n')]),
    ('xx-v-visible', [('skops/io/_visualize.py', '    if show == "all":\n        return True\n\n    if show == "untrusted":\n        return not is_safe\n\n    # case: show only safe node\n    return is_self_safe\n', '    verdicts = {"all": True, "untrusted": not is_safe, "trusted": is_self_safe}\n    return verdicts.get(show, is_self_safe)\n')]),
    ('xx-v-label', [('skops/io/_visualize.py', '    tag = tag_safe if node.is_self_safe else tag_unsafe\n    if tag:\n        node_val += f" {tag}"\n\n    # colorize if so desired and if rich is installed\n    if use_colors:\n        if node.is_safe:\n            style = f"{color_safe}"\n        elif node.is_self_safe:\n            style = f"{color_child_unsafe}"\n        else:\n            style = f"{color_unsafe}"\n        node_val = f"[{style}]{node_val}[/{style}]"\n\n    return node_val\n', '    if node.is_self_safe:\n        tag, style = tag_safe, color_safe if node.is_safe else color_child_unsafe\n    else:\n        tag, style = tag_unsafe, color_safe if node.is_safe else color_unsafe\n    parts = [node_val, tag] if tag else [node_val]\n    label = " ".join(parts)\n    if not use_colors:\n        return label\n    return "[" + style + "]" + label + "[/" + style + "]"\n')]),
    ('xx-v-ancestors', [('skops/io/_visualize.py', '        while visible_ancestors and visible_ancestors[-1] >= node.level:\n            visible_ancestors.pop()\n\n        visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)\n        if not visible:\n            continue\n', '        visible_ancestors = [lv for lv in visible_ancestors if lv < node.level]\n        if not _check_visibility(node.is_self_safe, node.is_safe, show):\n            continue\n')]),
    ('xx-v-newnode', [('skops/io/_visualize.py', '        node = replace(node, level=len(visible_ancestors) - 1)\n', '        node = NodeInfo(\n            level=len(visible_ancestors) - 1,\n            key=node.key,\n            val=node.val,\n            is_self_safe=node.is_self_safe,\n            is_safe=node.is_safe,\n            is_last=node.is_last,\n        )\n')]),
    ('xx-v-stack', [('skops/io/_visualize.py', '            if is_first_node:\n                tree = Tree(f"{escape(node.key)}: {label}", guide_style="gray50")\n                trees = {0: tree}\n                continue\n\n            parent_level = node.level - 1\n            parent_tree = trees[parent_level]\n            current_tree = parent_tree.add(f"{escape(node.key)}: {label}")\n            trees[node.level] = current_tree\n\n        console.print(tree)\n', '            text = f"{escape(node.key)}: {label}"\n            if is_first_node:\n                branches = [Tree(text, guide_style="gray50")]\n            else:\n                del branches[node.level :]\n                branches.append(branches[-1].add(text))\n\n        console.print(branches[0])\n')]),
    ('xx-v-walk-helper', [('skops/io/_visualize.py', '    if isinstance(node, SKIPPED_TYPES):\n        if not (isinstance(node, NdArrayNode) and node.type == "json"):\n            return\n        if node.is_safe():\n            return\n\n    children = node.children\n    if isinstance(node, DictNode) and children["key_types"].is_safe():\n        # key_types is not helpful, as it is artificially added by skops to\n        # circumvent the fact that json only allows keys to be strings. It is not\n        # useful to the user and adds a lot of noise, thus skip key_types.\n        children = {key: val for key, val in children.items() if key != "key_types"}\n\n    yield from walk_tree(\n        children,\n        node_name=node_name,\n        level=level + 1,\n    )\n', '    children = _shown_children(node)\n    if children is not None:\n        yield from walk_tree(children, node_name, level + 1)\n'), ('skops/io/_visualize.py', 'def walk_tree(\n', 'def _shown_children(node):\n    if isinstance(node, SKIPPED_TYPES):\n        is_object_array = isinstance(node, NdArrayNode) and node.type == "json"\n        return None if not is_object_array or node.is_safe() else node.children\n    if not isinstance(node, DictNode) or not node.children["key_types"].is_safe():\n        return node.children\n    remaining = dict(node.children)\n    remaining.pop("key_types")\n    return remaining\n\n\ndef walk_tree(\n')]),
    ('xx-v-open', [('skops/io/_visualize.py', '    if isinstance(file, bytes):\n        zf = ZipFile(io.BytesIO(file), "r")\n    else:\n        zf = ZipFile(file, "r")\n\n    with zf as zip_file:\n', '    source = io.BytesIO(file) if isinstance(file, bytes) else file\n    with ZipFile(source) as zip_file:\n')]),
    ('xx-v-match', [('skops/io/_visualize.py', '    if show == "all":\n        return True\n\n    if show == "untrusted":\n        return not is_safe\n\n    # case: show only safe node\n    return is_self_safe\n', '    match show:\n        case "all":\n            return True\n        case "untrusted":\n            return not is_safe\n        case _:\n            return is_self_safe\n')]),
    ('xx-cv-pathlib', [('skops/cli/_convert.py', '    with open(input_file, "rb") as f:\n        obj = pickle.load(f)\n    skops_dump = dumps(obj)\n', '    obj = pickle.loads(pathlib.Path(input_file).read_bytes())\n    skops_dump = dumps(obj)\n'), ('skops/cli/_convert.py', '    with open(output_file, "wb") as out_file:\n        logger.debug(f"Writing to {output_file}")\n        out_file.write(skops_dump)\n', '    logger.debug("Writing to %s", output_file)\n    pathlib.Path(output_file).write_bytes(skops_dump)\n')]),
    ('xx-cv-report', [('skops/cli/_convert.py', '    untrusted_types = get_untrusted_types(data=skops_dump)\n\n    if not untrusted_types:\n        logger.info(f"No unknown types found in {model_name}.")\n    else:\n        untrusted_str = ", ".join(untrusted_types)\n\n        logger.warning(\n            f"While converting {input_file}, "\n            "the following unknown types were found: "\n            f"{untrusted_str}. "\n            f"When loading {output_file} with skops.load, these types must be "\n            "specified as \'trusted\'"\n        )\n', '    _report(get_untrusted_types(data=skops_dump), input_file, output_file, logger)\n'), ('skops/cli/_convert.py', 'def format_parser(\n', 'def _report(unknown, source, target, logger):\n    if len(unknown) == 0:\n        name = pathlib.Path(source).stem\n        return logger.info(f"No unknown types found in {name}.")\n    message = (\n        "While converting {}, the following unknown types were found: {}. "\n        "When loading {} with skops.load, these types must be specified as \'trusted\'"\n    )\n    logger.warning(message.format(source, ", ".join(unknown), target))\n\n\ndef format_parser(\n')]),
    ('xx-cv-output', [('skops/cli/_convert.py', '    if not output_file:\n        # No filename provided, defaulting to base file path\n        file_name = pathlib.Path(input_file).stem\n        output_file = pathlib.Path.cwd() / f"{file_name}.skops"\n\n    _convert_file(\n        input_file=input_file,\n        output_file=output_file,\n    )\n', '    _convert_file(input_file, output_file or _default_output(input_file))\n\n\ndef _default_output(source):\n    return pathlib.Path(os.getcwd(), pathlib.Path(source).stem + ".skops")\n')]),
    ('xx-up-guards', [('skops/cli/_update.py', '    if inplace:\n        if output_file is None:\n            output_file = input_file\n        else:\n            raise ValueError(\n                "Cannot specify both an output file path and the inplace flag. Please"\n                " choose whether you want to create a new file or overwrite the input"\n                " file."\n            )\n', '    if inplace and output_file is not None:\n        raise ValueError(\n            "Cannot specify both an output file path and the inplace flag. Please"\n            " choose whether you want to create a new file or overwrite the input"\n            " file."\n        )\n    target = input_file if inplace else output_file\n'), ('skops/cli/_update.py', '    if output_file is None:\n        logger.warning(\n            f"File can', '    if target is None:\n        logger.warning(\n            f"File can'), ('skops/cli/_update.py', '    output_path = Path(output_file)\n', '    output_path = Path(target)\n'), ('skops/cli/_update.py', '    logger.info(f"Updated skops file written to {output_file}")\n', '    logger.info(f"Updated skops file written to {target}")\n')]),
    ('xx-up-protocol', [('skops/cli/_update.py', '    with zipfile.ZipFile(input_file, "r") as zip_file:\n        input_file_schema = json.loads(zip_file.read("schema.json"))\n\n    if input_file_schema["protocol"] == PROTOCOL:\n        logger.warning(\n            "File was not updated because already up to date with the current protocol:"\n            f" {PROTOCOL}"\n        )\n        return None\n\n    if input_file_schema["protocol"] > PROTOCOL:\n        logger.warning(\n            "File cannot be updated because its protocol is more recent than the "\n            f"current protocol: {PROTOCOL}"\n        )\n        return None\n', '    protocol = _file_protocol(input_file)\n    if protocol >= PROTOCOL:\n        if protocol > PROTOCOL:\n            reason = "cannot be updated because its protocol is more recent than the"\n        else:\n            reason = "was not updated because already up to date with the"\n        logger.warning(f"File {reason} current protocol: {PROTOCOL}")\n        return None\n'), ('skops/cli/_update.py', 'def format_parser(\n', 'def _file_protocol(path):\n    with zipfile.ZipFile(path, "r") as archive, archive.open("schema.json") as schema:\n        return json.load(schema)["protocol"]\n\n\ndef format_parser(\n')]),
    ('xx-up-write', [('skops/cli/_update.py', '    output_path = Path(output_file)\n    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:\n        tmp_output_file = Path(tmp_dir) / f"{output_path.name}.tmp"\n        dump(input_model, tmp_output_file)\n        os.replace(tmp_output_file, output_path)\n', '    _write_atomically(input_model, Path(output_file))\n'), ('skops/cli/_update.py', 'def format_parser(\n', 'def _write_atomically(model, path):\n    folder = tempfile.TemporaryDirectory(dir=path.parent)\n    with folder as name:\n        complete = Path(name, path.name + ".tmp")\n        dump(model, complete)\n        complete.replace(path)\n\n\ndef format_parser(\n')]),
    ('xx-cu-clip', [('skops/cli/_utils.py', '    if level >= len(all_levels):\n        level = len(all_levels) - 1\n    elif level < 0:\n        level = 0\n\n    return all_levels[level]\n', '    return all_levels[min(max(level, 0), len(all_levels) - 1)]\n')]),
    ('xx-u-memo', [('skops/io/_utils.py', '        obj_id = id(obj)\n        if obj_id not in self.memo:\n            self.memo[obj_id] = obj\n        return obj_id\n', '        key = id(obj)\n        self.memo.setdefault(key, obj)\n        return key\n')]),
    ('xx-u-paths', [('skops/io/_utils.py', '    if not types:\n        return []\n    if not isinstance(types, (list, tuple)):\n        types = [types]\n\n    return [get_type_name(t) if not isinstance(t, str) else t for t in types]\n', '    names: list[str] = []\n    if types:\n        for t in types if isinstance(types, (list, tuple)) else (types,):\n            names.append(t if isinstance(t, str) else get_type_name(t))\n    return names\n')]),
    ('xx-u-getstate', [('skops/io/_utils.py', '    __id__ = save_context.memoize(obj=value)\n\n    check_name(type(value), type(value).__module__)\n    res = _get_state(value, save_context)\n\n    res["__id__"] = __id__\n    return res\n', '    memo_id = save_context.memoize(value)\n    check_name(type(value), type(value).__module__)\n    return {**_get_state(value, save_context), "__id__": memo_id}\n')]),
]

# fourth batch
QUIET += [
    ('ww-seen-param', [('skops/io/_audit.py', '    def get_unsafe_set(self) -> set[str]:\n', '    def get_unsafe_set(self, _seen: Optional[set] = None) -> set[str]:\n'), ('skops/io/_audit.py', '        if hasattr(self, "_computing_unsafe_set"):\n', '        if _seen is None:\n            _seen = set()\n        if hasattr(self, "_computing_unsafe_set"):\n'), ('skops/io/_audit.py', '                    res.update(child.get_unsafe_set())\n', '                    res.update(child.get_unsafe_set(_seen))\n'), ('skops/io/_general.py', '    def get_unsafe_set(self) -> set[str]:\n        fn_name', '    def get_unsafe_set(self, _seen=None) -> set[str]:\n        fn_name'), ('skops/io/_general.py', '    def get_unsafe_set(self) -> set[str]:\n        res = super().get_unsafe_set()\n', '    def get_unsafe_set(self, _seen=None) -> set[str]:\n        res = super().get_unsafe_set(_seen)\n'), ('skops/io/old/_general_v0.py', '    def get_unsafe_set(self) ->', '    def get_unsafe_set(self, _seen=None) ->')]),
    ('ww-skip-safe', [('skops/io/_audit.py', '                    # delegate to the child Node\n                    res.update(child.get_unsafe_set())\n', '                    # delegate to the child Node\n                    if not child.is_safe():\n                        res.update(child.get_unsafe_set())\n')]),
    ('ww-unsafe-walrus', [('skops/io/_audit.py', '                    for value in child:\n                        res.update(value.get_unsafe_set())\n', '                    for value in child:\n                        if unsafe := value.get_unsafe_set():\n                            res |= unsafe\n')]),
    ('ww-import-clear', [('skops/io/_utils.py', '    return getattr(importlib.import_module(module, package=package), cls_or_func)\n', '    imported = importlib.import_module(module, package=package)\n    try:\n        return getattr(imported, cls_or_func)\n    except AttributeError:\n        raise AttributeError(\n            f"module {module!r} has no attribute {cls_or_func!r}"\n        ) from None\n')]),
    ('ww-import-split', [('skops/io/_utils.py', '    return getattr(importlib.import_module(module, package=package), cls_or_func)\n', '    try:\n        imported = importlib.import_module(module, package=package)\n    except ImportError:\n        raise\n    return getattr(imported, cls_or_func)\n')]),
    ('ww-audit-len', [('skops/io/_audit.py', '    unsafe = tree.get_unsafe_set()\n    if unsafe:\n        raise UntrustedTypesFoundException(unsafe)\n', '    unsafe = tree.get_unsafe_set()\n    if len(unsafe) == 0:\n        return\n    raise UntrustedTypesFoundException(unsafe)\n')]),
    ('ww-nd-member', [('skops/io/_numpy.py', '            self.children = {\n                "content": io.BytesIO(load_context.src.read(state["file"]))\n            }\n', '            member = state["file"]\n            with load_context.src.open(member) as stream:\n                data = stream.read()\n            self.children = {"content": io.BytesIO(data)}\n')]),
    ('ww-nd-load', [('skops/io/_numpy.py', '            content = np.load(self.children["content"], allow_pickle=False)\n', '            buffer = self.children["content"]\n            content = np.load(file=buffer, allow_pickle=False)\n')]),
    ('ww-default-class', [('skops/io/_general.py', 'class ListNode(Node):\n', 'class ListNode(Node):\n    _DEFAULT_TRUSTED = (list,)\n\n'), ('skops/io/_general.py', '        self.trusted = self._get_trusted(trusted, [list])\n', '        self.trusted = self._get_trusted(trusted, self._DEFAULT_TRUSTED)\n')]),
    ('ww-trusted-extend', [('skops/io/_audit.py', '        return get_type_paths(trusted) + get_type_paths(default)\n', '        res = get_type_paths(trusted)\n        res.extend(get_type_paths(default))\n        return res\n')]),
    ('ww-trusted-dedupe', [('skops/io/_audit.py', '        return get_type_paths(trusted) + get_type_paths(default)\n', '        res = list(get_type_paths(trusted))\n        for name in get_type_paths(default):\n            if name not in res:\n                res.append(name)\n        return res\n')]),
    ('ww-typename', [('skops/io/_utils.py', '    return f"{get_module(t)}.{t.__name__}"\n', '    name = t.__name__\n    return ".".join((get_module(t), name))\n')]),
    ('ww-checkname', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    full_name = f"{module_name}.{type_name}"\n    for name in trusted:\n        if name == full_name:\n            return True\n    return False\n')]),
    ('ww-fn-name', [('skops/io/_general.py', '        fn_name = self._get_function_name()\n        if (self.trusted is True) or (fn_name in self.trusted):\n            return set()\n\n        return {fn_name}\n', '        if self.trusted is True or self.is_self_safe():\n            return set()\n        return {self._get_function_name()}\n')]),
    ('ww-method-flip', [('skops/io/_general.py', '        type_name = f"{obj.class_name}.{self.func}"\n        if not check_type(obj.module_name, type_name, self.trusted):\n            res.add(f"{obj.module_name}.{type_name}")\n        return res\n', '        full_name = ".".join([obj.module_name, obj.class_name, self.func])\n        if full_name in self.trusted:\n            return res\n        return res | {full_name}\n')]),
    ('ww-tree-get', [('skops/io/_audit.py', '    if key in NODE_TYPE_MAPPING:\n        node_cls = NODE_TYPE_MAPPING[key]\n    else:\n', '    node_cls = NODE_TYPE_MAPPING.get(key)\n    if node_cls is None:\n')]),
    ('ww-tree-inline', [('skops/io/_audit.py', '    loaded_tree = node_cls(state, load_context, trusted=trusted)\n    return loaded_tree\n', '    kwargs = {"trusted": trusted}\n    return node_cls(state, load_context, **kwargs)\n')]),
    ('ww-json-test', [('skops/io/_general.py', '        obj_str = json.dumps(obj)\n        # subclasses, e.g. an IntEnum, would be loaded as the builtin type\n        if type(json.loads(obj_str)) is type(obj):\n', '        obj_str = json.dumps(obj)\n        loaded_type = type(json.loads(obj_str))\n        # subclasses, e.g. an IntEnum, would be loaded as the builtin type\n        if loaded_type == type(obj):\n')]),
    ('ww-obj-flat', [('skops/io/_numpy.py', '            for index, value in zip(np.ndindex(*shape), values):\n                content[index] = value\n', '            for position, index in enumerate(np.ndindex(*shape)):\n                content[index] = values[position]\n')]),
    ('ww-checkname-none', [('skops/io/_utils.py', '    module = sys.modules.get(module_name)\n    if getattr(module, obj.__name__, obj) is not obj:\n        raise UnsupportedTypeException(obj)\n', '    if module_name not in sys.modules:\n        return\n    found = getattr(sys.modules[module_name], obj.__name__, obj)\n    if found is not obj:\n        raise UnsupportedTypeException(obj)\n')]),
    ('ww-ck-flag', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    full_name = f"{module_name}.{type_name}"\n    found = False\n    for name in trusted:\n        if name == full_name:\n            found = True\n            break\n    return found\n')]),
    ('ww-ck-flag2', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    full_name = f"{module_name}.{type_name}"\n    found = False\n    for name in trusted:\n        if name == full_name:\n            found = True\n    return found\n')]),
    ('ww-ck-continue', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    full_name = f"{module_name}.{type_name}"\n    for name in trusted:\n        if name != full_name:\n            continue\n        return True\n    return False\n')]),
    ('ww-ck-list', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    full_name = f"{module_name}.{type_name}"\n    matches = [name for name in trusted if name == full_name]\n    return len(matches) > 0\n')]),
    ('ww-ck-set', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    return f"{module_name}.{type_name}" in set(trusted)\n')]),
    ('ww-ck-count', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    return trusted.count(f"{module_name}.{type_name}") > 0\n')]),
    ('ww-ck-else', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    full_name = f"{module_name}.{type_name}"\n    for name in trusted:\n        if name == full_name:\n            break\n    else:\n        return False\n    return True\n')]),
    ('ww-ck-local', [('skops/io/_audit.py', '    return module_name + "." + type_name in trusted\n', '    for name in trusted:\n        full_name = module_name + "." + type_name\n        if name == full_name:\n            return True\n    return False\n')]),
]
