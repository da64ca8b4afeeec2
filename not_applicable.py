NA = {}
# which property a "fix: <component>: ..." commit of /repo belongs to
FIX_PROPERTY = {"switchable_mutex": "E03", "array_tree": "C01", "segmented_array": "C01", "tag_array": "C02", "gap_vector": "C03", "segmented_tree": "C04", "indexitor": "C05",
                "growable_static_vector": "C06", "small_buffer_allocator": "C06", "intrusive_sort": "C07", "i_iterator": "C08", "list": "C08", "string": "C08",
                "set": "C09", "unordered_map": "C09", "mutable_set": "C09", "i_pair": "C09", "optional": "C10", "variant": "C10", "plugin_variant": "C10", "any": "C10", "pair": "C10", "quick_string": "C11", "allocator": "C12", "jar": "C13", "reference_counted": "L01", "lifetime": "L02", "event": "E01", "async_event": "E02", "mutex": "E03", "thread_pool": "E04", "thread": "E06", "waitable_event": "E06", "timer": "E05", "time_slice": "E05", "async_task": "E05", "task": "E07",
                "utf": "T01", "string_utils": "T02", "wildcard": "T03", "string_search": "T03", "numeric": "T04", "format": "T05", "json": "F01", "json_parse": "F02", "xml": "F03", "zip": "F04", "gunzip": "F05", "uri": "I01", "leb128": "I02", "packet": "I03", "crc": "I04",
                "vector_math": "N01", "random": "N02", "easing": "N03", "enum": "A04", "ecs_component": "S01", "ecs": "S02", "settings": "A01", "version": "A02", "logger": "A03"}
