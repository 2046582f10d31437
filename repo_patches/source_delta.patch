From 72524461c870f75ea2ea908fab5594ecb293a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 01/58] fix: two-container file decoded from whichever
 container directory the OS lists last

---
 src/v8unpack/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 445971c..63e423b 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -196,7 +196,7 @@ def encode(src_dir, dest_dir, *, pool=None, options=None, file_name=None):
 
 
 def decode(src_dir, dest_dir, *, pool=None, options=None):
-    containers = os.listdir(src_dir)
+    containers = sorted(os.listdir(src_dir))
     containers_count = len(containers)
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
-- 
2.43.0


From e59fa145a65641a46c862cbd193959effb752711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 02/58] fix: second container of a two-container file was
 written at wrong offsets and could not be read back

---
 src/v8unpack/container.py     | 5 +++--
 src/v8unpack/container_doc.py | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 23ec4c6..be608dd 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -238,10 +238,11 @@ class Container:
             doc = Document(self)
 
             if total_blocks == 1:
-                doc.write_block(f, doc_size=doc_size, offset=self.header_size)
+                doc.write_block(f, doc_size=doc_size, offset=self.header_size,
+                                min_block_size=self.index_block_size)
             else:
                 f.seek(0)
-                next_block_offset = file_size(self.file)
+                next_block_offset = file_size(self.file) - self.offset
                 doc.write_block(io.BytesIO(f.read(self.index_block_size)),
                                 doc_size=doc_size, offset=self.header_size,
                                 min_block_size=self.index_block_size,
diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 1c0b601..051a930 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -142,10 +142,10 @@ class Document:
         :return: смещение записанных данных (байт)
         :rtype: int
         """
-        if offset is not None:
-            self.container.file.seek(offset)
-        else:
-            offset = file_size(self.container.file)
+        # смещения внутри контейнера считаются от его начала (он может быть не первым в файле)
+        if offset is None:
+            offset = file_size(self.container.file) - self.container.offset
+        self.container.file.seek(offset + self.container.offset)
         block_size = file_size(data)
         min_block_size = max(min_block_size, block_size)
         if not next_block_offset:
-- 
2.43.0


From b437734c8ed382323ad39dbc3818e05f02c71854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 03/58] fix: extent of a container with chained blocks was
 miscalculated, so the container after it was not found

---
 src/v8unpack/container_doc.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index 051a930..de9127b 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -2,7 +2,6 @@
 import collections
 import datetime
 import io
-import math
 import os
 import tempfile
 import zlib
@@ -65,18 +64,10 @@ class Document:
         :return: генератор чтения данных документа
         """
         header_block = self.read_block(file, offset)
-        doc_size = max(header_block.doc_size, min_block_size)
-        if doc_size > header_block.current_block_size:
-            self.full_size = doc_size + math.ceil(
-                header_block.doc_size / header_block.current_block_size) * min_block_size
-            if min_block_size == self.container.index_block_size:
-                self.full_size += self.container.index_block_size
-        else:
-            self.full_size = doc_size + self.container.block_header_size
-
         if header_block is None:
             return
         else:
+            self.full_size = self._get_full_size(file, header_block, min_block_size)
             yield header_block.doc_size
             yield header_block.data
 
@@ -89,6 +80,23 @@ class Document:
                 yield block.data
                 next_block_offset = block.next_block_offset
 
+    def _get_full_size(self, file, block, min_block_size=0):
+        """
+        Место занимаемое документом в файле контейнера: все блоки его цепочки вместе с заголовками
+        (под единственный блок отведено не меньше min_block_size, даже если в его заголовке указано меньше)
+        """
+        size = 0
+        if block.next_block_offset == self.container.end_marker:
+            size = max(min_block_size - block.current_block_size, 0)
+        visited = set()
+        while block is not None:
+            size += self.container.block_header_size + block.current_block_size
+            if block.next_block_offset == self.container.end_marker or block.next_block_offset in visited:
+                break
+            visited.add(block.next_block_offset)
+            block = self.read_block(file, block.next_block_offset, 0)
+        return size
+
     def read_block(self, file, offset, max_data_length=None):
         """
         Считывает блок данных из контейнера.
-- 
2.43.0


From 360bd120e3933924b7857ebde2569c2ea7d07e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 04/58] fix: file was cut off where a chunk of its deflate
 stream inflates to nothing

---
 src/v8unpack/container_reader.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/container_reader.py b/src/v8unpack/container_reader.py
index 3b94b88..4f22de2 100644
--- a/src/v8unpack/container_reader.py
+++ b/src/v8unpack/container_reader.py
@@ -78,7 +78,6 @@ def decompress_file_and_extract(params):
     src_folder, filename, dest_folder = params
     src_path = os.path.join(src_folder, filename)
     dest_path = os.path.join(dest_folder, filename)
-    file_is_container = None
 
     # wbits = -15 т.к. у архивированных файлов нет заголовков
     decompressor = zlib.decompressobj(-15)
@@ -92,15 +91,13 @@ def decompress_file_and_extract(params):
                         if buf == b'':
                             break
                     data = decompressor.decompress(buf)
-                    if file_is_container is None:
-                        file_is_container = data[0:4] == b'\xFF\xFF\xFF\x7F'
-                    if data == b'':
-                        break
                     dest.write(data)
 
         # Каждый файл внутри контейнера может быть контейнером
         # Для проверки является ли файл контейнером проверим первые 4 бита
         # Способ проверки ненадежный - нужно придумать что-то другое
+        with open(dest_path, 'rb') as f:
+            file_is_container = f.read(4) == b'\xFF\xFF\xFF\x7F'
 
         if file_is_container:
             temp_filename = dest_path + ".temp"
-- 
2.43.0


From 9d27e5c2b1ea66009bccdb905034747f7176d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 05/58] fix: container nested in a nested container could not
 be written (its temporary file was already closed)

---
 src/v8unpack/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index be608dd..2dddeec 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -205,7 +205,7 @@ class Container:
                 with tempfile.TemporaryFile() as tmp2:
                     _container = Container()
                     _container.build(tmp2, file_path, nested=True)
-                self.add_file(tmp2, file_name, inflate=not nested)
+                    self.add_file(tmp2, file_name, inflate=not nested)
             else:
                 with open(file_path, 'rb') as entry_file:
                     self.add_file(entry_file, file_name, inflate=not nested)
-- 
2.43.0


From 1f197c335ad15202f916aba951af79b741db9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 06/58] fix: long ASCII strings were taken for base64 and
 broken with line feeds when writing brace files

---
 src/v8unpack/json_container_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/json_container_decoder.py b/src/v8unpack/json_container_decoder.py
index c560d0e..1935b63 100644
--- a/src/v8unpack/json_container_decoder.py
+++ b/src/v8unpack/json_container_decoder.py
@@ -335,7 +335,7 @@ class JsonContainerDecoder:
                     is_base64 = False
                     if j > 64:  # base64 нужно переносить
                         try:
-                            b64decode(elem)
+                            b64decode(elem, validate=True)
                             is_base64 = True
                         except ValueError:
                             pass
-- 
2.43.0


From 3be5f542156eb7dccaebac767fc89917f4ccf42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 07/58] fix: code of an include area could be lost or put where
 the build does not look for it

An area named root replaced the module itself, an includr area discarded the
include area of the same name, and an area without a path was saved next to the
original module although the build looks for it next to the enclosing file.
---
 src/v8unpack/organizer_code.py | 27 ++++++++++++++++++---------
 src/v8unpack/organizer_file.py | 10 +---------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 19f0c2a..e2a73cb 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -2,6 +2,7 @@ import os
 
 from . import helper
 from .ext_exception import ExtException
+from .index import get_dest_path
 
 
 class OrganizerCode:
@@ -21,9 +22,12 @@ class OrganizerCode:
     def unpack(cls, params):
         src_dir, path, file_name, dest_dir, index, descent = params
         self = cls()
-        self.code_areas = {'root': dict(data='')}
+        index_code_areas = index.get('Области include') if index else None
+        dest_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
+        # области хранятся списком: имя области может повторяться
+        self.code_areas = [dict(data='', path=dest_path, file_name=dest_file_name)]
         _path = ['']
-        _include_path = ['root']
+        _include_path = [self.code_areas[0]]
         with open(os.path.join(src_dir, path, file_name), 'r', encoding='utf-8-sig') as file:
             line = file.readline()
             while line:
@@ -43,23 +47,28 @@ class OrganizerCode:
                                 # if key in self.code_areas:
                                 #     raise Exception(
                                 #         f'В {path}{file_name} ссылка на один и тот же файл у разных областей {key}')
-                                self.code_areas[_include_path[-1]]['data'] += line
-                                self.code_areas[key] = dict(data='', area_type=area_type)
-                                _include_path.append(key)
+                                _include_path[-1]['data'] += line
+                                # имя без пути ищется рядом с тем файлом, в котором стоит область
+                                dest_path, dest_file_name = cls.parse_include_path(
+                                    key, _include_path[-1]['path'], file_name, index_code_areas, descent)
+                                area = dict(data='', path=dest_path, file_name=dest_file_name)
+                                if area_type != 'includr':
+                                    self.code_areas.append(area)
+                                _include_path.append(area)
                                 _path.append(key)
                             else:
-                                self.code_areas[_include_path[-1]]['data'] += line
+                                _include_path[-1]['data'] += line
                                 _path.append('')
 
                         elif _line.startswith('#КонецОбласти'):
                             if _path[-1]:  # кончилась include область
                                 _include_path.pop()
                             _path.pop()
-                            self.code_areas[_include_path[-1]]['data'] += line
+                            _include_path[-1]['data'] += line
                         else:
-                            self.code_areas[_include_path[-1]]['data'] += line
+                            _include_path[-1]['data'] += line
                     else:
-                        self.code_areas[_include_path[-1]]['data'] += line
+                        _include_path[-1]['data'] += line
                     line = file.readline()
                 except Exception as err:
                     raise ExtException(parent=err, detail=f'in file {file_name} line {line}')
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index db2b2c9..bba128d 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -82,15 +82,7 @@ class OrganizerFile:
         src_dir, path, file_name, dest_dir, index, descent = params
         try:
             code_areas = OrganizerCode.unpack(params)
-            for elem in code_areas:
-                _file = code_areas[elem]
-                if elem == 'root':
-                    _file['path'], _file['file_name'] = get_dest_path(dest_dir, path, file_name, index, descent)
-                else:
-                    if _file['area_type'] == 'includr':
-                        continue
-                    _file['path'], _file['file_name'] = OrganizerCode.parse_include_path(
-                        elem, path, file_name, index.get('Области include') if index else None, descent)
+            for _file in code_areas:
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
                 if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
-- 
2.43.0


From 6bdf47934dd6999014f6252256222e4afdfaecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 08/58] fix: end of an include area was glued to the last line
 of a fragment saved without a final newline

---
 src/v8unpack/organizer_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index e2a73cb..199b991 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -113,6 +113,8 @@ class OrganizerCode:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive)
+                            if not data.endswith('\n'):  # в файле области может не быть последнего перевода строки
+                                data += '\n'
                     line = file.readline()
                 return data
         except ExtException as err:
-- 
2.43.0


From 716a6751d0d89d8960329cef4931cb5578c622ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 09/58] fix: byte order mark of an include fragment ended up in
 the middle of the built module

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 199b991..502830f 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -91,7 +91,7 @@ class OrganizerCode:
             if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
-            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8') as file:
+            with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8-sig') as file:
                 line = file.readline()
                 while line:
                     _line = line.strip()
-- 
2.43.0


From f7bee24370400919aab6d6cd33726480babc2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 10/58] fix: directive inserted before a tab-indented
 DynamicDirective marker was not removed on extraction

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 502830f..fa12c28 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -97,7 +97,7 @@ class OrganizerCode:
                     _line = line.strip()
                     if _line:
                         if _line.startswith('//DynamicDirective') and dynamic_directive:
-                            line = f'{dynamic_directive} {line}'
+                            line = f'{dynamic_directive} {line.lstrip()}'
                     data += line
                     if _line and _line[0] == '#':
                         if cls.is_area(_line):
-- 
2.43.0


From 81ead32c5f8c2c565e2c4156ca452ed45db3d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 11/58] fix: code before a DynamicDirective comment was cut out
 on extraction if the line had an ampersand in it

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index fa12c28..0029519 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -35,7 +35,7 @@ class OrganizerCode:
                     _line = line.strip()
                     dynamic_directive_index = line.rfind(' //DynamicDirective')
                     if dynamic_directive_index >= 0:
-                        if line.find('&') >= 0:
+                        if _line.startswith('&'):
                             line = line[dynamic_directive_index + 1:]
                     if _line and _line[0] == '#':
                         if _line.startswith('#Область'):
-- 
2.43.0


From 041b417040e324108beb25927e3f7f304a7de005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 12/58] fix: form elements of an include area could be lost or
 put where the build does not look for them

An area named root was replaced by the form's own file, and an area without a
path was not saved next to a form moved by the index, where the build looks.
---
 src/v8unpack/organizer_form_elem.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 0c2978f..dd43409 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -17,8 +17,7 @@ class OrganizerFormElem:
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
-        areas['root'] = elements
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, elements)
 
     @staticmethod
     def is_area(name):
@@ -108,15 +107,15 @@ class OrganizerFormElem:
             raise ExtException(parent=err)
 
     @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas):
+    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, elements):
         try:
+            root_path, root_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
+            helper.json_write(elements, os.path.abspath(os.path.join(dest_dir, root_path)), root_file_name)
             for elem in areas:
-                if elem == 'root':
-                    dest_entry_path, dest_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
-                else:
-                    dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
-                        elem, path, elem, index.get('Области include') if index else None, descent,
-                        file_extension=file_name[-9::])
+                # имя без пути ищется рядом с файлом формы
+                dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
+                    elem, root_path, elem, index.get('Области include') if index else None, descent,
+                    file_extension=file_name[-9::])
                 dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
 
                 helper.json_write(areas[elem], dest_path, dest_file_name)
-- 
2.43.0


From 0262c1baaf2b10322232f4e80c67cb1fc77adf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 13/58] fix: form with a panel in an includr area could not be
 built (pages of the panel were not found)

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index dd43409..4f29b44 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -187,12 +187,12 @@ class OrganizerFormElem:
                     if child:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
-            pages = data.pop(f'{path}/-pages-', None)
+            pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
                 new_path = f'{append_path}/{_path}/-pages-' if append_path else f'{_path}/-pages-'
                 root_data[new_path] = pages
                 for name in pages:
-                    old_path = f'{path}/{name}'
+                    old_path = f'{_path}/{name}'
                     new_path = f'{append_path}/{_path}/{name}' if append_path else f'{_path}/{name}'
                     try:
                         root_data[new_path] = data.pop(old_path)
-- 
2.43.0


From 024705d302e0ffb8855887ec5a2de69af985d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 14/58] fix: pages of an empty panel nested in an include area
 were not moved to the file of the area

---
 src/v8unpack/organizer_form_elem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 4f29b44..ac5d664 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -87,7 +87,7 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
+                    if child is not None:
                         cls._pop_area_data(child, old_path, root_data, data, remove_path)
 
             pages = root_data.pop(f'{path}/-pages-', None)
@@ -184,7 +184,7 @@ class OrganizerFormElem:
                     except Exception:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
-                    if child:
+                    if child is not None:
                         cls._append_area_data(child, old_path, root_data, data, append_path)
 
             pages = data.pop(f'{_path}/-pages-', None)
-- 
2.43.0


From 32bdbfc02de956ff6296796acedacbf75a4ffc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 15/58] fix: files listed explicitly in the index were also
 taken from the folder of the '*' entry on build

---
 src/v8unpack/organizer_file.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index bba128d..5846808 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -193,7 +193,6 @@ class OrganizerFile:
     def _pack_index(cls, src_dir: str, dest_dir: str, tasks_code_file: list, tasks_form_elem, index: dict,
                     index_code_areas: dict, path: list,
                     descent=None):
-        completed_entry = []
         for entry in index:
             try:
                 if entry == 'Области include':
@@ -205,8 +204,8 @@ class OrganizerFile:
                     all_files = os.listdir(all_path)
                     excluded = entry.split('-')[1:]
                     for file_name in all_files:
-                        # пропускаем все что были до
-                        if file_name in completed_entry:
+                        # пропускаем все что перечислены явно, независимо от порядка и от того, куда они направлены
+                        if file_name in index:
                             continue
                         if file_name in excluded:
                             continue
@@ -224,7 +223,6 @@ class OrganizerFile:
                     path.pop()
                     pass
                 elif isinstance(index[entry], str):
-                    completed_entry.append(entry)
                     cls._pack_index_elem(entry, src_dir, dest_dir, tasks_code_file, tasks_form_elem, index[entry],
                                          index_code_areas, path, descent)
                 else:
-- 
2.43.0


From 0aa330e456e0a971ce08e3f7f4ad96d1c0a972e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 16/58] fix: local copy of a module or form redirected by the
 index was built as well, the last worker won

---
 src/v8unpack/organizer_file.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 5846808..2485692 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -135,7 +135,10 @@ class OrganizerFile:
             if index:
                 cls._pack_index(src_dir, dest_dir, tasks_code_file, tasks_form_elem, index, index_code_areas, [''],
                                 descent)
-            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent)
+            # эти файлы появятся в dest_dir только после выполнения заданий
+            redefined = {os.path.join(task[4], task[5]) for task in tasks_code_file + tasks_form_elem}
+            cls._pack(src_dir, dest_dir, '', tasks_code_file, tasks_form_elem, index, index_code_areas, descent,
+                      redefined)
             helper.run_in_pool(OrganizerCode.pack, tasks_code_file, pool=pool, title=f'{"Собираем код из файлов":30}')
             helper.run_in_pool(OrganizerFormElem.pack, tasks_form_elem, pool=pool,
                                title=f'{"Собираем элементы форм":30}')
@@ -241,7 +244,8 @@ class OrganizerFile:
         return os.listdir(os.path.join(src_dir, path))
 
     @classmethod
-    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None):
+    def _pack(cls, src_dir, dest_dir, path, tasks_code_file, tasks_form_elem, index, index_code_areas, descent=None,
+              redefined=()):
         if path:
             helper.makedirs(os.path.join(dest_dir, path), exist_ok=True)
         entries = cls.list_descent_dir(src_dir, path, descent)
@@ -251,12 +255,13 @@ class OrganizerFile:
 
                 if os.path.isdir(os.path.normcase(src_entry_path)):
                     cls._pack(src_dir, dest_dir, os.path.join(path, entry), tasks_code_file, tasks_form_elem, index,
-                              index_code_areas, descent)
+                              index_code_areas, descent, redefined)
                     continue
                 _src_path = os.path.join(src_dir, path)
                 descent_full_src_path, descent_file_name = cls.pack_get_descent_filename(
                     _src_path, entry, descent)
-                if os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))):
+                if os.path.join(path, entry) in redefined or \
+                        os.path.isfile(os.path.normcase(os.path.join(dest_dir, path, entry))):
                     # если файл уже есть, значит он был переопределен в индексе и делать ничего не надо
                     continue
                 if entry.endswith('.bsl'):
-- 
2.43.0


From d06c0374409ccc47c515dc7db242e98490a6ab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 17/58] fix: version suffix was recognised in names that have
 none (a name being the beginning of another, .0., .007.)

---
 src/v8unpack/helper.py | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 109a329..7e112ba 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -348,11 +348,15 @@ def get_descent_file_name(file_name, descent):
     return '.'.join(name)
 
 
+def is_descent(value: str) -> bool:
+    # для нулевой версии суффикс не добавляется, ведущих нулей у суффикса не бывает
+    return value.isascii() and value.isdigit() and not value.startswith('0')
+
+
 def get_near_descent_file_name(path, file_name, descent):
     name: list = file_name.split('.')
     startswith = '.'.join(name[0:-1])
     endswith = name[-1]
-    size = len(name)
     is_without_descent = False
     try:
         entities = os.listdir(path)
@@ -361,20 +365,15 @@ def get_near_descent_file_name(path, file_name, descent):
         entities = []
     descents = []
     for entity in entities:
-        if entity.startswith(startswith) and entity.endswith(endswith):
-            _entity = entity.split('.')
-            if entity == file_name:
-                is_without_descent = True
-                continue
-
-            if len(_entity) - 1 != size:
-                continue
+        if entity == file_name:
+            is_without_descent = True
+            continue
+        _entity = entity.split('.')
+        # имя должно совпадать полностью, Тест.5.bsl это не версия файла Те.bsl
+        if len(_entity) > 2 and is_descent(_entity[-2]) and [*_entity[:-2], _entity[-1]] == name:
             full_path = os.path.join(path, entity)
             if os.path.isfile(full_path):
-                try:
-                    descents.append(int(_entity[-2]))
-                except ValueError:  # если во втором разряде не число, значит не наш вариант
-                    pass
+                descents.append(int(_entity[-2]))
     if not descents:
         if is_without_descent:
             return path, file_name
@@ -389,14 +388,10 @@ def get_near_descent_file_name(path, file_name, descent):
 
 def remove_descent_from_filename(file_name):
     _name = file_name.split('.')
-    try:
-        if len(_name) < 3:
-            return file_name
-        _descent = _name.pop(-2)
-        if str(int(_descent)) == _descent:
-            return '.'.join(_name)
-    except Exception:
-        return file_name
+    if len(_name) > 2 and is_descent(_name[-2]):
+        _name.pop(-2)
+        return '.'.join(_name)
+    return file_name
 
 
 def makedirs(name, exist_ok=False):
-- 
2.43.0


From 51a40dc177362aabfd9b97db71af6b2dd0fd7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 18/58] fix: extraction with descent deleted the files of all
 other versions

---
 src/v8unpack/organizer_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 2485692..5b533c2 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -17,7 +17,10 @@ class OrganizerFile:
         print(f'{"Организуем код":30}')
         tasks_code_file = []
         tasks_form_elem = []
-        helper.clear_dir(dest_dir)
+        if descent is None:
+            helper.clear_dir(dest_dir)
+        else:  # в папке лежат файлы других версий, новые раскладываются относительно них
+            helper.makedirs(dest_dir, exist_ok=True)
         cls._unpack(src_dir, os.path.abspath(dest_dir), '', tasks_code_file, tasks_form_elem, index,
                     descent)
         helper.run_in_pool(cls.unpack_code_file, tasks_code_file, pool=pool,
-- 
2.43.0


From ca73222e6464fc4f17f498a03849ed136a83dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 19/58] fix: form elements extracted with descent overwrote
 those of other versions (no version suffix)

---
 src/v8unpack/organizer_file.py      |  3 +-
 src/v8unpack/organizer_form_elem.py | 48 +++++++++++++++++++++--------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 5b533c2..0f150fb 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -43,7 +43,8 @@ class OrganizerFile:
                 if entry.endswith('.bsl'):
                     tasks_code_file.append((src_dir, path, entry, dest_dir, index, descent))
                 elif entry.endswith('.elem.json'):
-                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent))
+                    tasks_form_elem.append((src_dir, path, entry, dest_dir, index, descent,
+                                            cls.unpack_get_descent_filename))
                 else:
                     src_path = os.path.join(src_dir, path)
                     cls.unpack_file(src_path, entry, dest_dir, path, entry, index, descent)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index ac5d664..2d95b79 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -13,11 +13,12 @@ class OrganizerFormElem:
 
     @classmethod
     def unpack(cls, params):
-        src_dir, path, file_name, dest_dir, index, descent = params
+        src_dir, path, file_name, dest_dir, index, descent, unpack_get_descent_filename = params
         areas = {}
         elements = helper.json_read(os.path.join(src_dir, path), file_name)
         cls._unpack_get_areas(elements['tree'], '', elements['data'], areas)
-        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, elements)
+        cls._unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, elements,
+                                unpack_get_descent_filename)
 
     @staticmethod
     def is_area(name):
@@ -106,19 +107,20 @@ class OrganizerFormElem:
         except Exception as err:
             raise ExtException(parent=err)
 
-    @staticmethod
-    def _unpack_write_areas(src_dir, path, file_name, dest_dir, index, descent, areas, elements):
+    @classmethod
+    def _unpack_write_areas(cls, src_dir, path, file_name, dest_dir, index, descent, areas, elements,
+                            unpack_get_descent_filename):
         try:
             root_path, root_file_name = get_dest_path(dest_dir, path, file_name, index, descent)
-            helper.json_write(elements, os.path.abspath(os.path.join(dest_dir, root_path)), root_file_name)
+            cls._unpack_write_file(elements, dest_dir, root_path, root_file_name, descent,
+                                   unpack_get_descent_filename)
             for elem in areas:
                 # имя без пути ищется рядом с файлом формы
                 dest_entry_path, dest_file_name = OrganizerCode.parse_include_path(
                     elem, root_path, elem, index.get('Области include') if index else None, descent,
                     file_extension=file_name[-9::])
-                dest_path = os.path.abspath(os.path.join(dest_dir, dest_entry_path))
-
-                helper.json_write(areas[elem], dest_path, dest_file_name)
+                cls._unpack_write_file(areas[elem], dest_dir, dest_entry_path, dest_file_name, descent,
+                                       unpack_get_descent_filename)
         except Exception as err:
             raise ExtException(
                 parent=err,
@@ -126,14 +128,31 @@ class OrganizerFormElem:
                 action='unpack_code_file'
             )
 
+    @classmethod
+    def _unpack_write_file(cls, data, dest_dir, path, file_name, descent, unpack_get_descent_filename):
+        dest_path = os.path.abspath(os.path.join(dest_dir, path))
+        # файлы вне папки исходников не версионируются
+        if dest_path.startswith(dest_dir) or os.path.normcase(path).find('\\src\\') >= 0:
+            dest_path, file_name = unpack_get_descent_filename(None, None, data, dest_path, file_name, descent,
+                                                               cls.equal_elem_file)
+        if file_name:
+            helper.json_write(data, dest_path, file_name)
+
+    @classmethod
+    def equal_elem_file(cls, src_path, src_file_name, src_data, near_descent_path, near_descent_file_name):
+        return helper.json_read(near_descent_path, near_descent_file_name) == src_data
+
     @classmethod
     def pack(cls, params):
         src_dir, src_path, src_file_name, dest_dir, dest_path, dest_file_name, index_code_areas, \
             descent, pack_get_descent_filename = params
-        elements = helper.json_read(os.path.join(src_dir, src_path), src_file_name)
+        _src_abs_path = os.path.abspath(os.path.join(src_dir, src_path))
+        if _src_abs_path.startswith(src_dir) or os.path.normcase(src_path).find('\\src\\') >= 0:
+            _src_abs_path, src_file_name = pack_get_descent_filename(_src_abs_path, src_file_name, descent)
+        elements = helper.json_read(_src_abs_path, src_file_name)
         try:
-            cls._pack_get_areas(src_dir, src_path, src_file_name, elements['tree'], '', elements['data'],
-                                index_code_areas, descent)
+            cls._pack_get_areas(src_dir, src_path, dest_file_name, elements['tree'], '', elements['data'],
+                                index_code_areas, descent, pack_get_descent_filename)
         except Exception as err:
             raise ExtException(parent=err, message='Ошибка сборки элементов формы',
                                detail=f'{os.path.join(src_path, src_file_name)}')
@@ -146,7 +165,8 @@ class OrganizerFormElem:
         return elem_class.get_class_form_elem(elem_type)
 
     @classmethod
-    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent):
+    def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
+                        pack_get_descent_filename):
         for elem in tree:
             try:
                 name: str = elem['name']
@@ -157,6 +177,8 @@ class OrganizerFormElem:
                     _path, _file_name = OrganizerCode.parse_include_path(
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
+                    if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find('\\src\\') >= 0:
+                        _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
 
                     include_elements = helper.json_read(_src_abs_path, _file_name)
                     cls._append_area_data(include_elements['tree'], name, root_data, include_elements['data'],
@@ -166,7 +188,7 @@ class OrganizerFormElem:
                 child = elem.get('child')
                 if child:
                     cls._pack_get_areas(src_dir, src_path, file_name, child, new_path, root_data, index_code_areas,
-                                        descent)
+                                        descent, pack_get_descent_filename)
             except Exception as err:
                 raise ExtException(parent=err, message='Ошибка сборки области формы', detail=elem['name'])
 
-- 
2.43.0


From 2cb07d523554e347e8f9b910ba3618bd148f0ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 20/58] fix: folder next to the sources whose name begins with
 the name of the sources folder was taken for a part of it

---
 src/v8unpack/helper.py              | 5 +++++
 src/v8unpack/organizer_code.py      | 4 ++--
 src/v8unpack/organizer_file.py      | 4 ++--
 src/v8unpack/organizer_form_elem.py | 6 +++---
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 7e112ba..d499ec1 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -348,6 +348,11 @@ def get_descent_file_name(file_name, descent):
     return '.'.join(name)
 
 
+def is_inside(path: str, folder: str) -> bool:
+    # src2 не лежит внутри src
+    return os.path.join(path, '').startswith(os.path.join(folder, ''))
+
+
 def is_descent(value: str) -> bool:
     # для нулевой версии суффикс не добавляется, ведущих нулей у суффикса не бывает
     return value.isascii() and value.isdigit() and not value.startswith('0')
diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 0029519..81d3191 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -88,7 +88,7 @@ class OrganizerCode:
         try:
             data = ''
             _src_abs_path = os.path.abspath(os.path.join(src_dir, path))
-            if _src_abs_path.startswith(src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
+            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(path).find(normcase_src) >= 0:
                 _src_abs_path, file_name = pack_get_descent_filename(_src_abs_path, file_name, descent)
 
             with open(os.path.join(_src_abs_path, file_name), 'r', encoding='utf-8-sig') as file:
@@ -109,7 +109,7 @@ class OrganizerCode:
                             _path, _file_name = cls.parse_include_path(include_path, path, file_name, index_code_areas,
                                                                        descent)
                             _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                            if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
+                            if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find(normcase_src) >= 0:
                                 _path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
                             data += cls.pack_file(src_dir, _path, _file_name, index_code_areas, descent,
                                                   pack_get_descent_filename, current_dynamic_directive)
diff --git a/src/v8unpack/organizer_file.py b/src/v8unpack/organizer_file.py
index 0f150fb..72ce90f 100644
--- a/src/v8unpack/organizer_file.py
+++ b/src/v8unpack/organizer_file.py
@@ -66,7 +66,7 @@ class OrganizerFile:
             src_full_path = os.path.join(src_path, src_file_name)
 
             # файлы вне папки исходников не версионируются
-            if dest_full_path.startswith(dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
+            if helper.is_inside(dest_full_path, dest_dir) or os.path.normcase(dest_entry_path).find('\\src\\') >= 0:
                 descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(src_path, src_file_name,
                                                                                             None,
                                                                                             dest_full_path,
@@ -88,7 +88,7 @@ class OrganizerFile:
             code_areas = OrganizerCode.unpack(params)
             for _file in code_areas:
                 _file['dest_path'] = os.path.abspath(os.path.join(dest_dir, _file['path']))
-                if _file['dest_path'].startswith(dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
+                if helper.is_inside(_file['dest_path'], dest_dir) or os.path.normcase(_file['path']).find('\\src\\') >= 0:
                     descent_full_dest_path, descent_file_name = cls.unpack_get_descent_filename(
                         None, None, _file['data'], _file['dest_path'], _file['file_name'], descent,
                         cls.equal_code_file)
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 2d95b79..8d5860c 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -132,7 +132,7 @@ class OrganizerFormElem:
     def _unpack_write_file(cls, data, dest_dir, path, file_name, descent, unpack_get_descent_filename):
         dest_path = os.path.abspath(os.path.join(dest_dir, path))
         # файлы вне папки исходников не версионируются
-        if dest_path.startswith(dest_dir) or os.path.normcase(path).find('\\src\\') >= 0:
+        if helper.is_inside(dest_path, dest_dir) or os.path.normcase(path).find('\\src\\') >= 0:
             dest_path, file_name = unpack_get_descent_filename(None, None, data, dest_path, file_name, descent,
                                                                cls.equal_elem_file)
         if file_name:
@@ -147,7 +147,7 @@ class OrganizerFormElem:
         src_dir, src_path, src_file_name, dest_dir, dest_path, dest_file_name, index_code_areas, \
             descent, pack_get_descent_filename = params
         _src_abs_path = os.path.abspath(os.path.join(src_dir, src_path))
-        if _src_abs_path.startswith(src_dir) or os.path.normcase(src_path).find('\\src\\') >= 0:
+        if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(src_path).find('\\src\\') >= 0:
             _src_abs_path, src_file_name = pack_get_descent_filename(_src_abs_path, src_file_name, descent)
         elements = helper.json_read(_src_abs_path, src_file_name)
         try:
@@ -177,7 +177,7 @@ class OrganizerFormElem:
                     _path, _file_name = OrganizerCode.parse_include_path(
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
                     _src_abs_path = os.path.abspath(os.path.join(src_dir, _path))
-                    if _src_abs_path.startswith(src_dir) or os.path.normcase(_path).find('\\src\\') >= 0:
+                    if helper.is_inside(_src_abs_path, src_dir) or os.path.normcase(_path).find('\\src\\') >= 0:
                         _src_abs_path, _file_name = pack_get_descent_filename(_src_abs_path, _file_name, descent)
 
                     include_elements = helper.json_read(_src_abs_path, _file_name)
-- 
2.43.0


From dfa09f221a74b529cbc3212d1317d43da3c3447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 21/58] fix: areas without a path shared one file in the root
 of the repository when extracted with descent

---
 src/v8unpack/organizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_code.py b/src/v8unpack/organizer_code.py
index 81d3191..e211b40 100644
--- a/src/v8unpack/organizer_code.py
+++ b/src/v8unpack/organizer_code.py
@@ -142,6 +142,6 @@ class OrganizerCode:
         if size_tmp > 1:
             tmp = ['..' if elem == '' else elem for elem in tmp[:-1]]
             _path = os.path.join(_path, *tmp)
-        if _path == '..':
+        else:  # имя без пути, файл лежит рядом
             _path = path
         return _path, _file_name
-- 
2.43.0


From 0fe60116d8409912f51966563242ba3458302595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 22/58] fix: a picture or template whose comment ends with
 json, bsl or c1b64 is not overwritten by its own description

---
 src/v8unpack/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index d499ec1..8ac84b0 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -323,7 +323,8 @@ def get_extension_from_comment(comment: str) -> str:
     res = 'bin'
     if comment:
         ext = comment.split(" ")[-1]
-        if len(ext) < 6 and ext.isalnum():
+        # эти расширения заняты описанием объекта, модулями и неразобранным содержимым
+        if len(ext) < 6 and ext.isalnum() and ext.lower() not in ['json', 'bsl', 'c1b64']:
             return ext
     return res
 
-- 
2.43.0


From 8fb559398a2ff1d29b6929c7dd0db535c18f59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 23/58] fix: building a managed form that has no body does not
 add an empty body

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 1ed03de..8ecaaf7 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -300,7 +300,7 @@ class FormCore(SimpleNameFolder):
             else:
                 helper.brace_file_write(self.encode_header(), dest_dir, self.header["uuid"])
                 self.file_list.append(self.header["uuid"])
-                if self.form:
+                if self.form and self.form[0]:
                     file_name = f'{self.header["uuid"]}.0'
                     helper.brace_file_write(self.form[0], dest_dir, file_name)
                     self.file_list.append(file_name)
-- 
2.43.0


From d2b70562858f382565f230a22480e6fdfee776c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 24/58] fix: files without an extension are found again when
 building with descent

---
 src/v8unpack/helper.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 8ac84b0..07c665e 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -361,8 +361,6 @@ def is_descent(value: str) -> bool:
 
 def get_near_descent_file_name(path, file_name, descent):
     name: list = file_name.split('.')
-    startswith = '.'.join(name[0:-1])
-    endswith = name[-1]
     is_without_descent = False
     try:
         entities = os.listdir(path)
@@ -376,7 +374,8 @@ def get_near_descent_file_name(path, file_name, descent):
             continue
         _entity = entity.split('.')
         # имя должно совпадать полностью, Тест.5.bsl это не версия файла Те.bsl
-        if len(_entity) > 2 and is_descent(_entity[-2]) and [*_entity[:-2], _entity[-1]] == name:
+        # у файла без расширения версия стоит перед именем
+        if len(_entity) > 1 and is_descent(_entity[-2]) and [*_entity[:-2], _entity[-1]] == name:
             full_path = os.path.join(path, entity)
             if os.path.isfile(full_path):
                 descents.append(int(_entity[-2]))
@@ -389,12 +388,12 @@ def get_near_descent_file_name(path, file_name, descent):
         if is_without_descent:
             return path, file_name
         return '', ''
-    return path, f'{startswith}.{descents[0]}.{endswith}'
+    return path, get_descent_file_name(file_name, descents[0])
 
 
 def remove_descent_from_filename(file_name):
     _name = file_name.split('.')
-    if len(_name) > 2 and is_descent(_name[-2]):
+    if len(_name) > 1 and is_descent(_name[-2]):
         _name.pop(-2)
         return '.'.join(_name)
     return file_name
-- 
2.43.0


From 02106511e00f1d6dee9bf39cd0a888f7a8b9c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 25/58] fix: prefix is taken away only from the names it is
 added to when building

---
 src/v8unpack/MetaDataObject/__init__.py | 1 +
 src/v8unpack/MetaObject/__init__.py     | 1 +
 src/v8unpack/helper.py                  | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index d0ef541..2899ef5 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -51,6 +51,7 @@ class MetaDataObject(MetaObject):
             header_data = cls.brace_file_read(src_dir, file_name)
             self = cls.get_handler(header_data, options)
             self.parent_container_uuid = parent_container_uuid
+            self.is_top_level = not os.path.dirname(dest_path)
             # self = cls()
             # if parent_type:
             #     self.title = parent_type
diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f7e9ce2..f5b891c 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -31,6 +31,7 @@ class MetaObject:
         self.file_list = []
         self.obj_version = obj_version
         self.options = options
+        self.is_top_level = False
 
     @classmethod
     def get_container_uuid(cls, header_data):
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 07c665e..2d5ae81 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -122,7 +122,8 @@ def decode_header(meta_obj, header: list, *, id_in_separate_file=True):
 
     prefix = meta_obj.options.get('prefix', '')
     obj['name'] = str_decode(header[2])
-    if prefix and obj['name'].startswith(prefix):
+    # префикс при сборке получают только не заимствованные объекты верхнего уровня
+    if prefix and meta_obj.is_top_level and (len(header) < 6 or header[5] == '0') and obj['name'].startswith(prefix):
         obj['name'] = obj['name'][len(prefix):]
         header[2] = str_encode(obj['name'])
     obj['name2'] = {}
-- 
2.43.0


From b7d19092397f8c43ff28cbe343610726335f7188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 26/58] fix: table of contents is rebuilt with auto_include
 when the last nested object was removed

---
 src/v8unpack/MetaDataObject/__init__.py           | 3 +--
 src/v8unpack/MetaObject/Configuration.py          | 4 ++--
 src/v8unpack/MetaObject/ConfigurationExtension.py | 4 ++--
 src/v8unpack/MetaObject/ExternalDataProcessor.py  | 4 ++--
 4 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/__init__.py b/src/v8unpack/MetaDataObject/__init__.py
index 2899ef5..f769b9f 100644
--- a/src/v8unpack/MetaDataObject/__init__.py
+++ b/src/v8unpack/MetaDataObject/__init__.py
@@ -155,8 +155,7 @@ class MetaDataObject(MetaObject):
             self.name = self.header['name']
             self.uuid = data_id['uuid']
             self.obj_version = self.header['obj_version']
-            if include_index:
-                self.fill_header_includes(include_index)  # todo dynamic index
+            self.fill_header_includes(include_index)  # todo dynamic index
             self.encode_object(src_dir, src_file_name, dest_dir)
             self.write_encode_object(dest_dir)
             return dict(
diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index bc88c1f..ce680a1 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -114,8 +114,8 @@ class Configuration(MetaObject):
             except KeyError:
                 pass
 
-        if include_index and self.get_options('auto_include'):
-            self.fill_header_includes(include_index)  # todo dynamic index
+        if self.get_options('auto_include'):
+            self.fill_header_includes(include_index or {})  # todo dynamic index
 
         helper.brace_file_write(self.header["root"], dest_dir, 'root')
         file_list.append('root')
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 0c93808..2d62082 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -84,8 +84,8 @@ class ConfigurationExtension(Configuration):
 
             helper.check_version(__version__, self.header.get('v8unpack', ''))
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             # self.header['copyinfo'][2] = b64encode(bytes.fromhex(self.header['copyinfo'][2]+md5().digest().hex())).decode()
             root = [
diff --git a/src/v8unpack/MetaObject/ExternalDataProcessor.py b/src/v8unpack/MetaObject/ExternalDataProcessor.py
index fa3b75f..b3955d1 100644
--- a/src/v8unpack/MetaObject/ExternalDataProcessor.py
+++ b/src/v8unpack/MetaObject/ExternalDataProcessor.py
@@ -73,8 +73,8 @@ class ExternalDataProcessor(MetaObject):
 
             self.set_product_info(src_dir, file_name)
 
-            if include_index and self.get_options('auto_include'):
-                self.fill_header_includes(include_index)
+            if self.get_options('auto_include'):
+                self.fill_header_includes(include_index or {})
 
             helper.brace_file_write(self.encode_root(), dest_dir, 'root')
             file_list.append('root')
-- 
2.43.0


From bc28ebc95e2c11a3ff23a97c837fffb5f391d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 27/58] fix: with auto_include objects of a kind that had none
 are added to the table of contents

---
 src/v8unpack/MetaObject/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index f5b891c..267ba7a 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -172,6 +172,11 @@ class MetaObject:
                 internal_data = include_index.get(metadata_type.name)
                 if not internal_data:
                     return
+                if not _count_obj and self.get_options('auto_include'):
+                    # при разборке объектов этого типа не было, их добавили в исходники
+                    include_objects = [elem[2] for elem in sorted(internal_data, key=lambda d: d[1])]
+                    include[i + 3] = [_metadata_type_uuid, str(len(include_objects)), *include_objects]
+                    return
                 # данные простых объектов пришли из внешних файлов и нужно поместить из в объект
                 internal_data_uuid = {}
                 for i, elem in enumerate(internal_data):
-- 
2.43.0


From e2724b91d9a02dd8faf91258e8fdc25378efaf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 28/58] fix: compatibility mode given with the version option
 is set on extraction too, as documented

---
 src/v8unpack/MetaObject/Configuration.py          | 1 +
 src/v8unpack/MetaObject/ConfigurationExtension.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaObject/Configuration.py b/src/v8unpack/MetaObject/Configuration.py
index ce680a1..e5a518c 100644
--- a/src/v8unpack/MetaObject/Configuration.py
+++ b/src/v8unpack/MetaObject/Configuration.py
@@ -54,6 +54,7 @@ class Configuration(MetaObject):
         self.header['versions'] = helper.brace_file_read(src_dir, 'versions')
         # shutil.copy2(os.path.join(src_dir, 'versions.json'), os.path.join(dest_dir, 'versions.json'))
 
+        version = self.get_options('version', version)
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][26]
         else:
diff --git a/src/v8unpack/MetaObject/ConfigurationExtension.py b/src/v8unpack/MetaObject/ConfigurationExtension.py
index 2d62082..e832d32 100644
--- a/src/v8unpack/MetaObject/ConfigurationExtension.py
+++ b/src/v8unpack/MetaObject/ConfigurationExtension.py
@@ -31,6 +31,7 @@ class ConfigurationExtension(Configuration):
         _form_header = self.get_decode_header(self.header['header'])
         helper.decode_header(self, _form_header, id_in_separate_file=False)
         product_version = self.header['header'][0][3][1][1][15]
+        version = self.get_options('version', version)
         if version is None:
             self.header['compatibility_version'] = self.header['header'][0][3][1][1][43]
         else:
-- 
2.43.0


From 36de41176526682150a94929afc470c7ff95336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 29/58] fix: building into a file in the current folder failed

---
 src/v8unpack/container_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/container_writer.py b/src/v8unpack/container_writer.py
index 7a70aa2..d66aa37 100644
--- a/src/v8unpack/container_writer.py
+++ b/src/v8unpack/container_writer.py
@@ -30,7 +30,7 @@ def build(src_dir, filename, nested=False):
     """
     begin = datetime.now()
     print(f'{"Запаковываем бинарник":30}:', end="")
-    helper.makedirs(os.path.dirname(filename), exist_ok=True)
+    helper.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
 
     containers = os.listdir(src_dir)
     _src_dir = containers[-1]
-- 
2.43.0


From 76fda05cb76dd411f16afd61a6b0d8f38b3cd648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 30/58] fix: product version stamp does not leak into the next
 product built with the same options; options may be null in the product file

---
 src/v8unpack/v8unpack.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 4bd1cc6..96b59fc 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -20,8 +20,7 @@ from .version import __version__
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = dict()
+        options = dict(options or {})  # по ходу разбора дополняется, чужой словарь не меняем
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
@@ -73,8 +72,7 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
     try:
         begin0 = datetime.now()
-        if options is None:
-            options = {}
+        options = dict(options or {})  # по ходу сборки дополняется, чужой словарь не меняем
 
         print(f"saby v8unpack {__version__}")
 
@@ -131,7 +129,7 @@ def build_all(product_file_name: str, product_code: str = None, processes=None):
             if params.get('disable'):
                 continue
             print(f'\nСобираем {product}')
-            options = params.get('options', {})
+            options = dict(params.get('options') or {})
             options['product'] = product
             build(
                 params['src'], params['bin'],
-- 
2.43.0


From 8f852cebaf31867bd4d6ce952b8aeee71596c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 31/58] fix: with an empty directory file nothing was extracted
 or built and no error was reported

---
 src/v8unpack/v8unpack.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 96b59fc..986667f 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -24,8 +24,6 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
@@ -77,8 +75,6 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
-        if not index and index is not None:
-            return
 
         print(f"Начали")
 
-- 
2.43.0


From 49339df4fc7072899b710979ff82fbd56b0708ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 32/58] fix: descent 0 and an empty prefix given on the command
 line were ignored

---
 src/v8unpack/v8unpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 986667f..9a64e93 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -249,7 +249,7 @@ def main():
     options_name = ['prefix', 'auto_include', 'descent', 'version']
     for elem in options_name:
         value = getattr(args, elem, None)
-        if value:
+        if value is not None and value is not False:
             options[elem] = value
 
     try:
-- 
2.43.0


From 8ed06b42916331377643b5783067720e5df1f74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 33/58] fix: the processes option of the command line was
 ignored

---
 src/v8unpack/v8unpack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 9a64e93..8051098 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -255,20 +255,20 @@ def main():
     try:
         if args.E is not None:
             extract(os.path.abspath(args.E[0]), os.path.abspath(args.E[1]),
-                    index=args.index, temp_dir=args.temp, options=options)
+                    index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.B is not None:
             build(os.path.abspath(args.B[0]), os.path.abspath(args.B[1]),
-                  index=args.index, temp_dir=args.temp, options=options)
+                  index=args.index, temp_dir=args.temp, options=options, processes=args.processes)
             return
 
         if args.BA is not None:
-            build_all(args.BA[0], args.index)
+            build_all(args.BA[0], args.index, processes=args.processes)
             return
 
         if args.EA is not None:
-            extract_all(args.EA[0], args.index)
+            extract_all(args.EA[0], args.index, processes=args.processes)
             return
 
         if args.I is not None:
-- 
2.43.0


From d3c23e791d74a383b7f755a4c6f75669ee47087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 34/58] fix: modules kept only as image (encrypted) were lost

---
 src/v8unpack/MetaObject/__init__.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/v8unpack/MetaObject/__init__.py b/src/v8unpack/MetaObject/__init__.py
index 267ba7a..75f4ba6 100644
--- a/src/v8unpack/MetaObject/__init__.py
+++ b/src/v8unpack/MetaObject/__init__.py
@@ -302,21 +302,16 @@ class MetaObject:
                 continue
             if os.path.isdir(_obj_code_dir):
                 self.header[f'code_info_{code_name}'] = helper.brace_file_read(_obj_code_dir, 'info')
-                try:
-                    self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
-                                                                        uncomment_directive=uncomment_directive)
-                    self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
-                except FileNotFoundError as err:
-                    # todo могут быть зашифрованные модули тогда файл будет # image.json - зашифрованный контент
-                    not_encrypted = True
+                self.code[code_name], encoding = self.read_raw_code(_obj_code_dir, 'text',
+                                                                    uncomment_directive=uncomment_directive)
+                if self.code[code_name] is None:
+                    # текста нет у зашифрованных модулей, тогда файл будет image - зашифрованный контент
                     for encrypted_type in self.encrypted_types:
                         if os.path.isfile(os.path.join(_obj_code_dir, encrypted_type)):
                             self.code[code_name] = helper.bin_read(_obj_code_dir, encrypted_type)
-                            self.header[f'code_encoding_{code_name}'] = encrypted_type
-                            not_encrypted = False
+                            encoding = encrypted_type
                             break
-                    if not_encrypted:
-                        raise err from err
+                self.header[f'code_encoding_{code_name}'] = encoding  # можно безболезненно поменять на utf-8-sig
             else:
                 code_file_name = f'{self.header["uuid"]}.{self.ext_code[code_name]}'
                 self.code[code_name], encoding = self.read_raw_code(src_dir, code_file_name,
@@ -344,7 +339,7 @@ class MetaObject:
                     else:
                         self.code[code_name] = helper.txt_read(src_dir, f'{file_name}.{code_name}.bsl')
                 except FileNotFoundError:
-                    self.code[code_name] = ''
+                    self.code[code_name] = b'' if encoding in self.encrypted_types else ''
 
     def write_encode_code(self, dest_dir, *, comment_directive=False):
         for code_name in self.code:
@@ -364,7 +359,7 @@ class MetaObject:
                 helper.makedirs(_code_dir)
                 helper.brace_file_write(self.header[f'code_info_{code_name}'], _code_dir, 'info')
                 if encoding in self.encrypted_types:
-                    helper.bin_write(self.code[code_name], _code_dir, 'text')
+                    helper.bin_write(self.code[code_name], _code_dir, 'image' if encoding == 'image' else 'text')
                 else:
                     self.write_raw_code(self.code[code_name], _code_dir, 'text', encoding=encoding,
                                         comment_directive=comment_directive)
-- 
2.43.0


From bebb630b0b793b45dc13106dfc31b573ae65418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 35/58] fix: a folder that could not be emptied left stale
 files in the result

---
 src/v8unpack/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index 2d5ae81..b7ca3ae 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -156,8 +156,12 @@ def encode_header(meta_obj, header: list):
 
 
 def clear_dir(path: str) -> None:
+    if os.path.islink(path):  # чистим папку, на которую указывает ссылка
+        path = os.path.realpath(path)
     shutil.rmtree(path, ignore_errors=True)
     makedirs(path, exist_ok=True)
+    if os.listdir(path):  # старые файлы попали бы в результат
+        raise ExtException(message='Не удалось очистить папку', detail=path)
 
 
 def str_encode(data: str) -> str:
-- 
2.43.0


From 1c049ec61c7cf3d25f2ca88144c88e98ee560400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 36/58] fix: truncated or damaged container was extracted
 without an error

---
 src/v8unpack/container_doc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container_doc.py b/src/v8unpack/container_doc.py
index de9127b..869ac07 100644
--- a/src/v8unpack/container_doc.py
+++ b/src/v8unpack/container_doc.py
@@ -63,9 +63,11 @@ class Document:
         :type offset: int
         :return: генератор чтения данных документа
         """
+        if offset == self.container.end_marker:  # у документа нет данных
+            return
         header_block = self.read_block(file, offset)
         if header_block is None:
-            return
+            raise ValueError('Контейнер поврежден: файл короче чем указано в оглавлении')
         else:
             self.full_size = self._get_full_size(file, header_block, min_block_size)
             yield header_block.doc_size
@@ -76,9 +78,13 @@ class Document:
 
             while left_bytes > 0 and next_block_offset != self.container.end_marker:
                 block = self.read_block(file, next_block_offset, left_bytes)
+                if block is None:
+                    break
                 left_bytes -= len(block.data)
                 yield block.data
                 next_block_offset = block.next_block_offset
+            if left_bytes > 0:
+                raise ValueError('Контейнер поврежден: документ прочитан не полностью')
 
     def _get_full_size(self, file, block, min_block_size=0):
         """
@@ -127,6 +133,8 @@ class Document:
         data_size = min(current_block_size, max_data_length)
 
         data = file.read(data_size)
+        if len(data) < data_size:
+            raise ValueError('Контейнер поврежден: файл короче чем указано в оглавлении')
 
         return Block(doc_size, current_block_size, next_block_offset, data)
 
-- 
2.43.0


From e3f3585e340a0276a8fffb822c7388d1aaa0bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 37/58] fix: interrupted build left a part of the product that
 passes for a whole one

---
 src/v8unpack/container_writer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/container_writer.py b/src/v8unpack/container_writer.py
index d66aa37..4107ae4 100644
--- a/src/v8unpack/container_writer.py
+++ b/src/v8unpack/container_writer.py
@@ -38,7 +38,13 @@ def build(src_dir, filename, nested=False):
     if containers_count not in [1, 2]:
         raise NotImplementedError(f'Количество контейнеров {containers_count}')
 
-    with open(filename, 'w+b') as f:
+    # прежний файл заменяем только целиком собранным новым
+    filename = os.path.realpath(filename)
+    temp_filename = f'{filename}.tmp'
+    if os.path.exists(filename) and not os.path.isfile(filename):
+        temp_filename = filename  # например, устройство
+
+    with open(temp_filename, 'w+b') as f:
         _src_dir = os.path.join(src_dir, '0')
         container = Container()
         container.build(f, _src_dir, nested, offset=0)
@@ -46,6 +52,8 @@ def build(src_dir, filename, nested=False):
             _src_dir = os.path.join(src_dir, '1')
             container = Container64()
             container.build(f, _src_dir, nested, offset=f.seek(0, os.SEEK_END))
+    if temp_filename != filename:
+        os.replace(temp_filename, filename)
     print(f" - {datetime.now() - begin}")
 
 
-- 
2.43.0


From 04529be91a405ccd247ec9e99cb20596e7ece4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 38/58] fix: interrupted update of the directory file lost its
 contents

---
 src/v8unpack/index.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/index.py b/src/v8unpack/index.py
index dde9dda..1c16a80 100644
--- a/src/v8unpack/index.py
+++ b/src/v8unpack/index.py
@@ -48,8 +48,12 @@ def update_index(src_dir: str, index_file_name: str, dest_dir: str):
         index = {}
 
     _update_index(src_dir, index, dest_dir, '')
-    with open(index_file_name, 'w+', encoding='utf-8') as f:
+    # прежний файл заменяем только целиком записанным новым
+    index_file_name = os.path.realpath(index_file_name)
+    temp_file_name = f'{index_file_name}.tmp'
+    with open(temp_file_name, 'w', encoding='utf-8') as f:
         json.dump(index, f, ensure_ascii=False, indent=2)
+    os.replace(temp_file_name, index_file_name)
 
 
 def get_dest_path(dest_dir: str, path: str, file_name: str, index: dict, descent: int = None):
-- 
2.43.0


From 851e60eb97110a8606469a12f9dfee6672a6e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 39/58] fix: dummy.zip of a two-container product changed with
 every extraction

---
 src/v8unpack/decoder.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index 63e423b..bbcc0ad 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -1,5 +1,6 @@
 import os
 import shutil
+import zipfile
 from datetime import datetime
 
 from . import helper
@@ -204,4 +205,18 @@ def decode(src_dir, dest_dir, *, pool=None, options=None):
     _src_dir = os.path.join(src_dir, containers[-1])
     Decoder.decode(_src_dir, dest_dir, pool=pool, options=options)
     if containers_count == 2:
-        shutil.make_archive(os.path.join(dest_dir, 'dummy'), 'zip', os.path.join(src_dir, '0'))
+        make_dummy(os.path.join(src_dir, '0'), os.path.join(dest_dir, 'dummy.zip'))
+
+
+def make_dummy(src_dir, file_name):
+    # время файлов в архив не попадает, чтобы он не менялся от распаковки к распаковке
+    with zipfile.ZipFile(file_name, 'w') as archive:
+        for path, dirs, files in os.walk(src_dir):
+            dirs.sort()
+            for name in sorted(files):
+                full_name = os.path.join(path, name)
+                info = zipfile.ZipInfo(os.path.relpath(full_name, src_dir).replace(os.sep, '/'))
+                info.compress_type = zipfile.ZIP_DEFLATED
+                info.external_attr = 0o644 << 16
+                with open(full_name, 'rb') as file:
+                    archive.writestr(info, file.read())
-- 
2.43.0


From eca37e0ae9312fa209719c3c86a7809e58ae7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 40/58] fix: form element ItemAddition was extracted without a
 name (two of them overwrote each other)

---
 src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
index d9376f1..15c93b3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/ItemAddition.py
@@ -5,4 +5,4 @@ from v8unpack.helper import calc_offset
 class ItemAddition(FormElement):
     @classmethod
     def get_name_node_offset(cls, raw_data):
-        return calc_offset([(3, 1), (3, 0)], raw_data)
+        return calc_offset([(3, 1), (1, 1), (2, 0)], raw_data)
-- 
2.43.0


From aec95a6ebabe67649bc25c6bca5726e094788e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 41/58] fix: form with an include group that has no elements
 could not be built

---
 src/v8unpack/organizer_form_elem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 8d5860c..5c7c6dd 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -167,7 +167,7 @@ class OrganizerFormElem:
     @classmethod
     def _pack_get_areas(cls, src_dir, src_path, file_name, tree, path, root_data, index_code_areas, descent,
                         pack_get_descent_filename):
-        for elem in tree:
+        for elem in tree or []:  # у группы без подчиненных элементов null
             try:
                 name: str = elem['name']
                 new_path = cls.get_old_path(elem, path, name)
-- 
2.43.0


From c3c666ebc9b6918e0a021a2567f7ac862a6e140a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 42/58] fix: form element bound to something that is not an
 attribute of the form was listed as bound to the attribute with the same
 number and bound to it on build if in an include area

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 9506912..bc4be36 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -59,6 +59,9 @@ class FormElement:
                     prop = []
                     prop_src = form.props_index
                     for i in range(int(prop_link[0])):
+                        if len(prop_link[i + 1]) > 1:  # это не реквизит формы, номер с ним может совпадать
+                            prop = None
+                            break
                         prop_id = prop_link[i + 1][0]
                         try:
                             prop_name = prop_src[prop_id]['name']
-- 
2.43.0


From 199292a862832a058ecae1648783452e68dbeda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 43/58] fix: form button of a standard command was listed as a
 button of the form's command with the same number and turned into it on build
 if in an include area

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py  | 2 +-
 .../MetaDataObject/Form/FormElements4/FormElements4.py         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index bc4be36..39f19f3 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -78,7 +78,7 @@ class FormElement:
             if command_link_offset is not None:
                 command_link = raw_data[command_link_offset]
                 if command_link and int(command_link[0]):
-                    command = form.commands_index.get(command_link[0])
+                    command = form.commands_index.get(tuple(command_link))
 
             if not isinstance(name, str) or not name:
                 raise ExtException(message='form elem name not string')
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
index 10c8b9c..1eb4be0 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
@@ -41,7 +41,8 @@ class FormElements4:
         self.commands_index = {}
         if self.form.commands:
             for command in self.form.commands:
-                self.commands_index[command['id']] = command['name']
+                # номер есть и у стандартных команд, поэтому ссылка сравнивается целиком
+                self.commands_index[tuple(command['raw'][1])] = command['name']
 
     def create_prop_index_by_name(self):
         self.props_index = {}
-- 
2.43.0


From 8f931f81ec1c3058973ef775ad848953bf2afd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 44/58] fix: build of an ordinary form with auto_include cut
 the data path of its controls to the attribute of the form and dropped other
 data paths

---
 .../Form/FormElements27/FormElement.py        |  8 +++++--
 .../Form/FormElements27/FormElements27.py     | 21 +++++++------------
 .../Form/FormElements27/Panel.py              |  5 ++++-
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
index c65415c..41f763c 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
@@ -122,10 +122,14 @@ class FormElement:
             elem_id = raw_data[1]
 
             prop = elem_data.get('prop')
+            prop_index = elem_data.get('prop_index')
             if prop:
-                prop_index = form.props_index.get(prop)
-                if not prop_index:
+                prop_id = form.props_index.get(prop)
+                if not prop_id:
                     raise ExtException(message='Отсутствует свойство', detail=prop)
+                prop_index = ['1', [str(prop_id)]] if prop_index is None else [
+                    prop_index[0], [str(prop_id)] + prop_index[1][1:], *prop_index[2:]]
+            if prop_index is not None:
                 form.field_data_source.append((elem_id, prop_index))
 
             # type_index = elem_data.get('type_index')
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 5bff79c..130ff6d 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -57,9 +57,7 @@ class FormElements27:
         try:
             self.props_index = {}
             _props = {}
-            if not self.form.props:
-                return
-            for prop in self.form.props:
+            for prop in self.form.props or []:
                 _props[prop['id']] = prop
 
             element_count = int(raw_data[0])
@@ -69,14 +67,11 @@ class FormElements27:
             for i in range(element_count):
                 elem_raw_data = raw_data[i + 1]
                 elem_id = elem_raw_data[0]
-                # if elem_raw_data[1][0] == '1':
                 prop_id = elem_raw_data[1][1][0]
-                try:
-                    self.props_index[elem_id] = {'name': _props[prop_id]['name'], 'index': elem_raw_data[1]}
-                except KeyError:
-                    pass
-                # else:
-                #     raise NotImplementedError('prop index  > 1')
+                prop = {'index': elem_raw_data[1]}
+                if prop_id in _props:
+                    prop['name'] = _props[prop_id]['name']
+                self.props_index[elem_id] = prop
         except Exception as err:
             raise ExtException(parent=err)
 
@@ -91,10 +86,8 @@ class FormElements27:
 
     def fill_datasource(self, raw_data):
         raw_data.append(str(len(self.field_data_source)))
-        for elem_id, prop_id in self.field_data_source:
-            raw_data.append(
-                [str(elem_id), ['1', [str(prop_id)]]]
-            )
+        for elem_id, prop_index in self.field_data_source:
+            raw_data.append([str(elem_id), prop_index])
 
     def encode(self, src_dir, file_name, version, raw_data, path=''):
         try:
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index f1da6e9..05a0be8 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -70,7 +70,10 @@ class Panel(FormElement):
             if self.form:
                 prop = self.form.props_index.get(elem_data['id'])
                 if prop:
-                    self.elements_data[elem_id]['prop'] = prop['name']
+                    if 'name' in prop:
+                        self.elements_data[elem_id]['prop'] = prop['name']
+                    if 'name' not in prop or prop['index'][0] != '1':  # путь глубже реквизита формы
+                        self.elements_data[elem_id]['prop_index'] = prop['index']
 
             return elem_tree, None, elem_id
         except Exception as err:
-- 
2.43.0


From e8ce0959fa5e6390a6306fe470d3462c92dd894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:18 +0000
Subject: [PATCH 45/58] fix: ordinary form with a control of unknown kind could
 not be built, with auto_include it lost its pages

---
 src/v8unpack/MetaDataObject/Form/FormCore.py                   | 3 +++
 .../MetaDataObject/Form/FormElements27/FormElements27.py       | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 8ecaaf7..6f12435 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -195,6 +195,9 @@ class FormCore(SimpleNameFolder):
                 form_element_decoder(self).decode(src_dir, dest_dir, dest_path, self.form[0][0])
             except Exception as err:
                 self.form = json.loads(backup)
+                # форма остается неразобранной целиком
+                self.elements_tree, self.elements_data = [], {}
+                self.params, self.props, self.commands = [], [], []
                 pass  # todo если какие то елементы формы не разбираются, не прерываем
                 # raise ExtException(parent=err, message='Ошибка при разборе формы')
 
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
index 130ff6d..c9cef46 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElements27.py
@@ -95,6 +95,8 @@ class FormElements27:
             # if raw_data[index_element_count] == 'Дочерние элементы отдельно':
             # elements = helper.json_read(src_dir, f'{file_name}.elements802.json')
             elements = helper.json_read(src_dir, f'{file_name}.elem.json')
+            if not elements['data']:  # элементы формы не разобраны
+                return raw_data
             self.form.props = elements['props']
             self.form.elements_data = elements['data']
             self.form.elements_tree = elements['tree']
-- 
2.43.0


From 247815106a2c13ddb132c0f18289606419d6ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 46/58] fix: managed form with an attribute of unknown
 structure lost the columns of its other attributes

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index 39f19f3..cb26813 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -1,3 +1,4 @@
+import copy
 from enum import Enum
 
 from v8unpack import helper
@@ -273,11 +274,14 @@ class _FormRoot:
             if not element_count:
                 return
 
+            # неразобранный список остается в форме как есть
+            raw_data[cls.index] = copy.deepcopy(items)
             result = []
             for i in range(element_count):
                 result.append(cls.decode(form, items[i + index_element_count + 1]))
             items[index_element_count] = 'Дочерние элементы отдельно'
             del items[index_element_count + 1:index_element_count + 1 + element_count]
+            raw_data[cls.index] = items
             return result
         except Exception as err:
             pass
-- 
2.43.0


From 7837e6a02b9b29db7a0758c95cefb246e122cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:47 +0000
Subject: [PATCH 47/58] fix: empty nested container of the first container of a
 product was silently lost

---
 src/v8unpack/decoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v8unpack/decoder.py b/src/v8unpack/decoder.py
index bbcc0ad..a677e4e 100644
--- a/src/v8unpack/decoder.py
+++ b/src/v8unpack/decoder.py
@@ -213,6 +213,11 @@ def make_dummy(src_dir, file_name):
     with zipfile.ZipFile(file_name, 'w') as archive:
         for path, dirs, files in os.walk(src_dir):
             dirs.sort()
+            for name in sorted(dirs):
+                full_name = os.path.join(path, name)
+                info = zipfile.ZipInfo(os.path.relpath(full_name, src_dir).replace(os.sep, '/') + '/')
+                info.external_attr = 0o40755 << 16
+                archive.writestr(info, b'')
             for name in sorted(files):
                 full_name = os.path.join(path, name)
                 info = zipfile.ZipInfo(os.path.relpath(full_name, src_dir).replace(os.sep, '/'))
-- 
2.43.0


From b42ceef0d7e827ab7e7dccb24696e60e3ec5f4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:43 +0000
Subject: [PATCH 48/58] fix: container with a file that has no data could not
 be read

---
 src/v8unpack/container.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/v8unpack/container.py b/src/v8unpack/container.py
index 2dddeec..fc00535 100644
--- a/src/v8unpack/container.py
+++ b/src/v8unpack/container.py
@@ -9,7 +9,7 @@ import zlib
 from datetime import datetime, timedelta
 from struct import pack, calcsize
 # -*- coding: utf-8 -*-
-from struct import unpack
+from struct import unpack, unpack_from
 
 from tqdm import tqdm
 
@@ -168,8 +168,14 @@ class Container:
         # Первый документ после заголовка содержит оглавление
         doc = Document(self)
         doc_data = doc.read(file, self.header_size, self.index_block_size)
-        table_of_contents = [unpack(f'2{self.index_fmt}', x) for x in
-                             doc_data.split(pack(self.index_fmt, self.end_marker))[:-1]]
+        # запись: адрес описания, адрес данных (если данных нет, в нём тоже признак конца), признак конца
+        table_of_contents = []
+        entry_fmt = f'3{self.index_fmt}'
+        for entry_offset in range(0, len(doc_data) - calcsize(entry_fmt) + 1, calcsize(entry_fmt)):
+            *entry, end_marker = unpack_from(entry_fmt, doc_data, entry_offset)
+            if end_marker != self.end_marker:
+                raise ValueError('Контейнер поврежден: неверная запись оглавления')
+            table_of_contents.append(entry)
         self.size += self.header_size + doc.full_size
 
         files = collections.OrderedDict()
-- 
2.43.0


From 4e7ac64af0225678c0c62dc89c902b28d1e3f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:52 +0000
Subject: [PATCH 49/58] fix: managed form of unknown structure was extracted
 but could not be built

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 6f12435..6033c0a 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -196,6 +196,7 @@ class FormCore(SimpleNameFolder):
             except Exception as err:
                 self.form = json.loads(backup)
                 # форма остается неразобранной целиком
+                self.header['Элементы не разобраны'] = True
                 self.elements_tree, self.elements_data = [], {}
                 self.params, self.props, self.commands = [], [], []
                 pass  # todo если какие то елементы формы не разбираются, не прерываем
@@ -278,7 +279,7 @@ class FormCore(SimpleNameFolder):
         #     self.encode_old_elements(src_dir, file_name, dest_dir, parent_id)
         #     return
 
-        if not self.form or not self.form[0]:
+        if not self.form or not self.form[0] or self.header.get('Элементы не разобраны'):
             return
 
         form_element_decoder = self.get_form_element_decoder()
-- 
2.43.0


From 608f0a51467c07678f658f18ccceb70241c4d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:46 +0000
Subject: [PATCH 50/58] fix: group or table of a managed form whose elements
 were all removed (e.g. shared area emptied) was built with a marker text
 instead of the number of elements

---
 src/v8unpack/MetaDataObject/Form/FormElements4/Group.py | 7 +------
 src/v8unpack/MetaDataObject/Form/FormElements4/Table.py | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 33b38d2..3db60b9 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -32,13 +32,8 @@ class Group(FormElement):
     @classmethod
     def encode(cls, form, path, data):
         try:
-            try:
-                child = data['child']
-            except KeyError:
-                child = []
+            child = data.get('child') or []
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
             name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
             new_path = f"{path}/{name_for_child}" if path else name_for_child
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index 739930d..a640d7f 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -41,13 +41,8 @@ class Table(FormElement):
     @classmethod
     def encode(cls, form, path, data):
         try:
-            try:
-                child = data['child']
-            except KeyError:
-                child = []
+            child = data.get('child') or []
             raw_data = super().encode(form, path, data)
-            if not child:
-                return raw_data
             cls.encode_columns(form, child, raw_data, data, f"{path}")
             return raw_data
         except Exception as err:
-- 
2.43.0


From 3c8cb2eaacee48adad721c701057d1215cfa32e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 51/58] fix: attributes, commands, parameters and elements
 added to a managed form that had none were silently left out of the product

---
 .../MetaDataObject/Form/FormElements4/FormElement.py        | 4 ++--
 .../MetaDataObject/Form/FormElements4/FormElements4.py      | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index cb26813..d163014 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -293,8 +293,8 @@ class _FormRoot:
         raw_data = raw_data[cls.index]
         result = []
         index_element_count = 1
-        if raw_data[index_element_count] == 'Дочерние элементы отдельно':
-            items = getattr(form.form, cls.name)  # helper.json_read(src_dir, f'{file_name}.{cls.name}{version}.json')
+        items = getattr(form.form, cls.name)  # helper.json_read(src_dir, f'{file_name}.{cls.name}{version}.json')
+        if raw_data[index_element_count] == 'Дочерние элементы отдельно' or items and raw_data[index_element_count] == '0':
             if items:
                 for item in items:
                     result.append(cls.encode(form, item))
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
index 1eb4be0..21c40b7 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElements4.py
@@ -129,8 +129,10 @@ class FormElements4:
             #     self.command_panels = helper.json_read(src_dir, f'{file_name}.panels{version}.json')
 
             index_root_element_count = index[0]
-            if root_data[index_root_element_count] == 'Дочерние элементы отдельно':
+            items = self.form.elements_tree or []
+            if root_data[index_root_element_count] == 'Дочерние элементы отдельно' \
+                    or items and root_data[index_root_element_count] == '0':
                 # root_data[index_root_element_count] = str(len(self.elements_tree))
-                FormElement.encode_list(self, self.form.elements_tree, root_data, index_root_element_count)
+                FormElement.encode_list(self, items, root_data, index_root_element_count)
         except Exception as err:
             raise ExtException(parent=err)
-- 
2.43.0


From 8098a31e49b3a9ff2e2b9f08e06e707331f432c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 52/58] fix: attribute of a managed form whose columns were all
 removed was built with a marker text instead of the number of columns

---
 src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
index d163014..fd9b2bd 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/FormElement.py
@@ -362,8 +362,8 @@ class FormProps(_FormRoot):
         if pattern and len(pattern) > 1 and pattern[1][0] == '"#"' and \
                 pattern[1][1] == 'Родитель' and form.form.parent_container_uuid:
             pattern[1][1] = form.form.parent_container_uuid
-        if data.get('child'):
-            child_count = len(data['child'])
+        if data.get('child') or raw_data[cls.child_offset] == "отдельно":
+            child_count = len(data.get('child') or [])
             raw_data[cls.child_offset] = str(child_count)
             childs = []
             for i in range(child_count):
-- 
2.43.0


From cc2b0a11a6a637f7f6b46b13b38ed0894e66809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 53/58] fix: attributes added to an ordinary form that had none
 were silently left out of the product

---
 src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
index 41f763c..508d3d4 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/FormElement.py
@@ -180,7 +180,8 @@ class FormProps:
         try:
             result = []
             index_element_count = 0
-            if raw_data[index_element_count] == 'Дочерние элементы отдельно':
+            if raw_data[index_element_count] == 'Дочерние элементы отдельно' \
+                    or form.props and raw_data[index_element_count] == '0':
                 if form.props:
                     for prop in form.props:
                         result.append(cls.encode(form, path, prop))
-- 
2.43.0


From 8db872f2ce9a2a15911b127d172213d5c9f4abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 54/58] fix: form with areas of elements one inside another
 could not be extracted (includr inside include) or built (include inside an
 area beside the form), nor a table as an includr area

---
 .../MetaDataObject/Form/FormElements4/Group.py     |  7 ++++---
 .../MetaDataObject/Form/FormElements4/Table.py     |  7 +++++--
 src/v8unpack/helper.py                             |  5 +++++
 src/v8unpack/organizer_form_elem.py                | 14 +++++++-------
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
index 3db60b9..bfe244f 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Group.py
@@ -1,4 +1,5 @@
 from .FormElement import FormElement, check_count_element
+from v8unpack import helper
 from v8unpack.ext_exception import ExtException
 from v8unpack.helper import FuckingBrackets
 from v8unpack.helper import calc_offset
@@ -24,8 +25,8 @@ class Group(FormElement):
 
         data = super().decode(form, path, raw_data)
         index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
-        new_path = f"{path}/{data['name']}" if path else data['name']
-        new_path = new_path.replace('includr_', 'include_')
+        name_for_child = helper.include_name(data['name'])
+        new_path = f"{path}/{name_for_child}" if path else name_for_child
         data['child'] = cls.decode_list(form, raw_data, index, new_path)
         return data
 
@@ -35,7 +36,7 @@ class Group(FormElement):
             child = data.get('child') or []
             raw_data = super().encode(form, path, data)
             index = calc_offset([(3, 1), (1, 1), (17, 0)], raw_data)
-            name_for_child = f"include_{data['name'][8:]}" if data['name'][:8] == 'includr_' else data['name']
+            name_for_child = helper.include_name(data['name'])
             new_path = f"{path}/{name_for_child}" if path else name_for_child
             cls.encode_list(form, child, raw_data, index, new_path)
             return raw_data
diff --git a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
index a640d7f..f2ed1dc 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements4/Table.py
@@ -1,4 +1,5 @@
 from .FormElement import FormElement, check_count_element
+from v8unpack import helper
 from v8unpack.helper import FuckingBrackets
 from v8unpack.ext_exception import ExtException
 from v8unpack.helper import calc_offset
@@ -34,7 +35,8 @@ class Table(FormElement):
             index = calc_offset([
                 (4, 1), (50, 2), (7, 0)
             ], raw_data)
-            data['child'] = cls.decode_list(form, raw_data, index, f"{path}/{data['name']}" if path else data['name'])
+            name_for_child = helper.include_name(data['name'])
+            data['child'] = cls.decode_list(form, raw_data, index, f"{path}/{name_for_child}" if path else name_for_child)
         except Exception as err:
             raise ExtException(parent=err)
 
@@ -54,6 +56,7 @@ class Table(FormElement):
             index = calc_offset([
                 (4, 1), (50, 2), (7, 0)
             ], raw_data)
-            cls.encode_list(form, child, raw_data, index, f"{path}/{data['name']}" if path else data['name'])
+            name_for_child = helper.include_name(data['name'])
+            cls.encode_list(form, child, raw_data, index, f"{path}/{name_for_child}" if path else name_for_child)
         except Exception as err:
             raise ExtException(parent=err)
\ No newline at end of file
diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index b7ca3ae..d3274ff 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -176,6 +176,11 @@ def encode_name2(header: dict):
     return result
 
 
+def include_name(name):
+    # в пути детей includr не используется
+    return f"include_{name[8:]}" if name.startswith('includr_') else name
+
+
 def str_decode(data: str) -> str:
     return data[1:-1]
 
diff --git a/src/v8unpack/organizer_form_elem.py b/src/v8unpack/organizer_form_elem.py
index 5c7c6dd..ef774fa 100644
--- a/src/v8unpack/organizer_form_elem.py
+++ b/src/v8unpack/organizer_form_elem.py
@@ -58,9 +58,7 @@ class OrganizerFormElem:
                         },
                         tree=elem.pop('child', [])
                     )
-                    # в пути детей includr не используется.
-                    name: str = f'include_{area_name}'
-                    old_path = cls.get_old_path(elem, path, name)
+                    old_path = cls.get_old_path(elem, path, helper.include_name(name))
 
                     cls._pop_area_data(area['tree'], old_path, root_data, area['data'], cls.get_old_path(elem, path))
                     elem['child'] = 'В отдельном файле'
@@ -89,7 +87,8 @@ class OrganizerFormElem:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
                     if child is not None:
-                        cls._pop_area_data(child, old_path, root_data, data, remove_path)
+                        cls._pop_area_data(child, cls.get_old_path(elem, path, helper.include_name(name)), root_data,
+                                           data, remove_path)
 
             pages = root_data.pop(f'{path}/-pages-', None)
             if pages is not None:
@@ -170,9 +169,9 @@ class OrganizerFormElem:
         for elem in tree or []:  # у группы без подчиненных элементов null
             try:
                 name: str = elem['name']
-                new_path = cls.get_old_path(elem, path, name)
+                new_path = cls.get_old_path(elem, path, helper.include_name(name))
                 area_type = cls.is_area(name)
-                if area_type:
+                if area_type and isinstance(elem.get('child', ''), str):  # вложенная лежит в файле внешней области
                     area_name = name[8:]
                     _path, _file_name = OrganizerCode.parse_include_path(
                         area_name, src_path, file_name, index_code_areas, descent, file_extension=file_name[-9::])
@@ -207,7 +206,8 @@ class OrganizerFormElem:
                         raise KeyNotFound(message='Не найден элемент формы', detail=old_path)
                     child = elem.get('child')
                     if child is not None:
-                        cls._append_area_data(child, old_path, root_data, data, append_path)
+                        cls._append_area_data(child, cls.get_old_path(elem, _path, helper.include_name(name)),
+                                              root_data, data, append_path)
 
             pages = data.pop(f'{_path}/-pages-', None)
             if pages is not None:
-- 
2.43.0


From 9e16568af47020aba5e18d2d34bfbc3cb9a49c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:15 +0000
Subject: [PATCH 55/58] fix: page of an ordinary form shared as an area:
 includr page could not be extracted, controls of a page with another number
 in the other form got the number of the first form's page

---
 src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
index 05a0be8..c61f5c7 100644
--- a/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
+++ b/src/v8unpack/MetaDataObject/Form/FormElements27/Panel.py
@@ -46,7 +46,7 @@ class Panel(FormElement):
             page_id = self.calc_id(path, page_name, None)
             elem_tree = dict(name=elem_data['name'], type=elem_data['type'])
             if self.auto_include:
-                elem_id = self.calc_id(path, page_name, name)
+                elem_id = self.calc_id(path, helper.include_name(page_name or ''), name)
                 parent = self.elements_tree[self._elements_tree_index[page_id]]
                 parent['child'].append(elem_tree)
             else:
@@ -443,11 +443,13 @@ class Panel(FormElement):
             result = []
             if self.auto_include:
                 for i, page in enumerate(self.elements_tree):
-                    page_id = '/'.join(_id + [page['name']])
+                    page_id = '/'.join(_id + [helper.include_name(page['name'])])
                     if page['child']:
                         for elem in page['child']:
                             key = f"{page_id}/{elem['name']}"
                             self.encode_element(page_id, elem, key, result)
+                            # область может быть страницей с другим номером
+                            result[-1][-3][-5] = str(i)
                 self.anchored_elem_name_to_elem_id(result, path)
             else:
                 for elem in self.elements_tree:
-- 
2.43.0


From 030b3a5d062afb1230649e2ac0da4144462bd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:47 +0000
Subject: [PATCH 56/58] fix: second part of an ordinary form without the first
 was silently left out of the product

---
 src/v8unpack/MetaDataObject/Form/FormCore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8unpack/MetaDataObject/Form/FormCore.py b/src/v8unpack/MetaDataObject/Form/FormCore.py
index 6033c0a..16c48fd 100644
--- a/src/v8unpack/MetaDataObject/Form/FormCore.py
+++ b/src/v8unpack/MetaDataObject/Form/FormCore.py
@@ -83,6 +83,8 @@ class FormCore(SimpleNameFolder):
             form = helper.brace_file_read(src_dir, f'{self.header["uuid"]}.1')
         except FileNotFoundError:
             return
+        if not self.form:  # вторая часть формы без первой
+            self.form.append([])
         self.form.append(form)
 
     def decode_form0_from_dir(self, src_dir):
-- 
2.43.0


From 0c17c0f3c34a86485fbbf6e7d99e61b5363761f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:58 +0000
Subject: [PATCH 57/58] fix: worker processes were left running after a failed
 extraction or build

---
 src/v8unpack/v8unpack.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 8051098..760fc83 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -18,6 +18,7 @@ from .version import __version__
 
 
 def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, processes=None, options=None):
+    pool = None
     try:
         begin0 = datetime.now()
         options = dict(options or {})  # по ходу разбора дополняется, чужой словарь не меняем
@@ -64,10 +65,14 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
             shutil.rmtree(temp_dir, ignore_errors=True)
     except Exception as err:
         raise ExtException(parent=err) from None
+    finally:
+        if pool is not None:  # после ошибки рабочие процессы не должны остаться
+            pool.terminate()
 
 
 def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
           options=None, processes: int = None):
+    pool = None
     try:
         begin0 = datetime.now()
         options = dict(options or {})  # по ходу сборки дополняется, чужой словарь не меняем
@@ -113,6 +118,9 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
 
     except Exception as err:
         raise ExtException(parent=err) from None
+    finally:
+        if pool is not None:  # после ошибки рабочие процессы не должны остаться
+            pool.terminate()
 
 
 def build_all(product_file_name: str, product_code: str = None, processes=None):
-- 
2.43.0


From 4f9698270802212f2eee69108bad76dfd76bf30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:56 +0000
Subject: [PATCH 58/58] fix: product file, sources or directory file lying in a
 folder that is cleared (results, temporary files; also an empty --temp) were
 removed

---
 src/v8unpack/helper.py   | 8 ++++++++
 src/v8unpack/v8unpack.py | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/v8unpack/helper.py b/src/v8unpack/helper.py
index d3274ff..f38ea77 100644
--- a/src/v8unpack/helper.py
+++ b/src/v8unpack/helper.py
@@ -164,6 +164,14 @@ def clear_dir(path: str) -> None:
         raise ExtException(message='Не удалось очистить папку', detail=path)
 
 
+def check_outside(path: str, *dirs) -> None:
+    # исходные данные в очищаемой папке пропали бы
+    for folder in dirs:
+        if path is not None and folder is not None and is_inside(os.path.realpath(path), os.path.realpath(folder)):
+            raise ExtException(message='Исходные данные и временные файлы или результат должны лежать отдельно',
+                               detail=f'{path} внутри {folder}')
+
+
 def str_encode(data: str) -> str:
     return f'"{data}"'
 
diff --git a/src/v8unpack/v8unpack.py b/src/v8unpack/v8unpack.py
index 760fc83..bb96321 100644
--- a/src/v8unpack/v8unpack.py
+++ b/src/v8unpack/v8unpack.py
@@ -22,6 +22,9 @@ def extract(in_filename: str, out_dir_name: str, *, temp_dir=None, index=None, p
     try:
         begin0 = datetime.now()
         options = dict(options or {})  # по ходу разбора дополняется, чужой словарь не меняем
+        temp_dir = temp_dir or None  # с пустой строкой очистилась бы текущая папка
+        for path in (in_filename, index or None):
+            helper.check_outside(path, temp_dir, out_dir_name if options.get('descent') is None else None)
         print(f"saby v8unpack {__version__}")
 
         index = check_index(index)
@@ -76,6 +79,10 @@ def build(in_dir_name: str, out_file_name: str, *, temp_dir=None, index=None,
     try:
         begin0 = datetime.now()
         options = dict(options or {})  # по ходу сборки дополняется, чужой словарь не меняем
+        temp_dir = temp_dir or None  # с пустой строкой очистилась бы текущая папка
+        for path in (in_dir_name, index or None):
+            helper.check_outside(path, temp_dir)
+        helper.check_outside(temp_dir, in_dir_name)
 
         print(f"saby v8unpack {__version__}")
 
-- 
2.43.0

