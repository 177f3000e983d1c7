From ceb0b8f6123288eeae5f191f0db805d03d2020b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 01/26] fix: end row spans at header rows and rows without own
 cells

A row consisting only of cells spanning from earlier rows, or a header row in
the middle of a table, did not count against pending row spans, so the spanning
cells were inserted once more into a later row and shifted its columns.
---
 src/spex/jsonspec/rowiter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/rowiter.py b/src/spex/jsonspec/rowiter.py
index f20fc82..e8fe7f1 100644
--- a/src/spex/jsonspec/rowiter.py
+++ b/src/spex/jsonspec/rowiter.py
@@ -82,14 +82,18 @@ def alst_repr(alst: List[ALST]) -> str:
 
 
 def row_iter(tbl: Element) -> Iterator[Element]:
-    it = Xpath.elems(tbl, "./tr/td[1]/parent::tr | ./tr/th[1]/parent::tr")
-    # it = Xpath.elems(tbl, "./tr/td[1]/parent::tr")
+    it = Xpath.elems(tbl, "./tr")
     alst: List[ALST] = []
 
     row_cnt = 1
     for row in it:
         if contains_th(row):
             yield row
+            alst = alst_count_decr(alst)
+            continue
+        if Xpath.elem_first(row, "./td") is None:
+            # no cells of its own, but cells of prior rows may span into this row
+            alst = alst_count_decr(alst)
             continue
         if alst:
             row_ = row
-- 
2.43.0


From e8b23cfc30096ae542da0ec87b711e468fea39b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 02/26] fix: keep cached reports of uploads with the same file
 name apart

Reports were stored under the uploaded file's name, so a later upload of
another document with that name replaced the report served for the first.
---
 src/spexsrv/application/app.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 542d847..3c1d267 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -200,11 +200,10 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
                 json_fpath = e.value
                 html_path = Path(json_fpath.with_suffix(".html"))
 
-                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / json_fpath.name
+                # name by content hash, distinct uploads may share a file name
+                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / f"{hash}.json"
                 shutil.copy(json_fpath, cache_entry)
-                shutil.copy(
-                    html_path, Path(app.config[SPEX_CACHE_TMPDIR].name) / html_path.name
-                )
+                shutil.copy(html_path, cache_entry.with_suffix(".html"))
                 app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
-- 
2.43.0


From 15261a1f8ddbf7187e21f03ded55c9d50d77e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 03/26] fix: answer 404 for reports which do not exist

Requests for an unknown hash raised a TypeError and were answered 500.
---
 src/spexsrv/application/app.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 3c1d267..6631245 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -102,6 +102,15 @@ async def _app_shutdown() -> None:
     del app.config[SPEX_CACHE_LOOKUP]
 
 
+def cached_report(hash: str) -> Path:
+    """path to the cached JSON of a completed upload, aborts with 404 if none."""
+    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    if json_fpath is None or not json_fpath.is_file():
+        abort(404)
+    assert isinstance(json_fpath, Path)
+    return json_fpath
+
+
 @app.route("/")
 async def index() -> str:
     return await render_template("upload-form.html", title="Upload Specification")
@@ -110,11 +119,8 @@ async def index() -> str:
 @app.route("/report/<hash>")
 async def report(hash: str) -> str:
     # TODO: enable this part again this actually looks for the document requested
-    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
-
-    if json_fpath is None or not json_fpath.is_file():
-        abort(404)
+    json_fpath = cached_report(hash)
+    html_fpath = json_fpath.with_suffix(".html")
 
     with open(json_fpath) as fh:
         report_json = json.load(fh)
@@ -147,13 +153,13 @@ async def report(hash: str) -> str:
 
 @app.route("/json/<hash>")
 async def json_report(hash: str) -> Response:
-    json_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash))
+    json_fpath = cached_report(hash)
     return await quart.helpers.send_file(json_fpath)
 
 
 @app.route("/html/<hash>")
 async def html_report(hash: str) -> Response:
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
+    html_fpath = cached_report(hash).with_suffix(".html")
     return await quart.helpers.send_file(html_fpath)
 
 
-- 
2.43.0


From b3152a2b66169b6ad03baf88bd092ed318fe88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 04/26] fix: confine uploads to their temporary directory

The file name given by the client was used as is, so an absolute or relative
(../) name made the server write the upload, and its outputs, elsewhere.
---
 src/spexsrv/application/app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 6631245..3eb79cd 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -177,7 +177,8 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
 
     temp_dir = tempfile.TemporaryDirectory()
     temp_dir_path = Path(temp_dir.name)
-    destination = temp_dir_path / spec.filename
+    # the client chooses the name, never let it point outside the directory
+    destination = temp_dir_path / Path(spec.filename).name
 
     await spec.save(destination)
     hash = md5sum(destination)
-- 
2.43.0


From 3a692bd01f212af23ffd48ee171b0b8670db03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 05/26] fix: report shows the figure with exactly the erroneous
 id

The id was pasted unquoted into an XPath expression, so ids such as 3-1 were
evaluated (showing figure 2) and non-numeric ids never matched.
---
 src/spexsrv/application/report_view.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 26b377d..bffd0df 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -5,9 +5,6 @@
 from pathlib import Path
 from typing import Dict, List
 
-import lxml
-import lxml.etree
-
 from spex.xml import XmlUtils, Xpath, etree
 
 
@@ -16,11 +13,10 @@ def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-        try:
-            p = Xpath.elem_first(doc, f"./body/table[@id={figure_id}]")
-            if p is not None:
-                _err_figures[figure] = XmlUtils.fmt(p)
-        except lxml.etree.XPathEvalError:
-            ...
+        # compare ids as strings, "3-1" is an arithmetic expression in XPath
+        for tbl in Xpath.elems(doc, "./body/table[@id]"):
+            if tbl.get("id") == figure_id:
+                _err_figures[figure] = XmlUtils.fmt(tbl)
+                break
 
     return _err_figures
-- 
2.43.0


From 933335f7f211d1ac5e9ace97d210f7161f1f3c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 06/26] fix: escape title, revision and file name in the HTML
 model

A docx whose header or file name has an ampersand or quote gave an HTML model
which is not well-formed, and could thus not be parsed any further.
---
 src/spex/htmlspec/htmlrenderer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 81e6e16..4512ebf 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -132,16 +132,17 @@ class SpexHtmlRenderer:
         s.emitln("<!DOCTYPE html>")
         s.emitln('<html lang="en">')
         s.emitln("<head>").indent()
-        title = self._document.header.title
+        title = html_escape(self._document.header.title)
         revision = self._document.header.revision
         s.emit(f'<meta charset="utf-8" data-spec="{title}"')
         if revision is not None:
-            s.emit(f' data-revision="{revision}"')
+            s.emit(f' data-revision="{html_escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        s.emitln(f"<title>{self._fname}</title>")
+        fname = html_escape(self._fname)
+        s.emitln(f"<title>{fname}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{self._fname}.css"/>')
+        s.emitln(f'<link rel="stylesheet" href="{fname}.css"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0


From 003a7f428042c85e12b63ac98e5468316440dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 07/26] fix: convert all text of a run, hyperlink and simple
 field

Only the first w:t of a run and the first run of a hyperlink or simple field
were converted, the rest was lost; one without a run aborted the conversion.
---
 src/spex/htmlspec/parser.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 5755a2a..a6cdeaa 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -212,17 +212,17 @@ class SpexParser:
             if child.tag == Tag.r.value:
                 yield child
             elif child.tag == Tag.hyperlink.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+                yield from Xpath.elems(child, "./w:r")
             elif child.tag == Tag.fldSimple.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+                yield from Xpath.elems(child, "./w:r")
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-            txt = Xpath.elem_first(r, "./w:t")
-            if txt is None or txt.text is None:
+            txt = "".join(t.text or "" for t in Xpath.elems(r, "./w:t"))
+            if txt == "":
                 continue
             r_rpr = self._document.extract_r_rpr(r)
-            yield Span(style=r_rpr, text=txt.text)
+            yield Span(style=r_rpr, text=txt)
 
     def _parse_table(self, stream: Stream[_Element]) -> Optional[Table]:
         tbl = stream.consume()
-- 
2.43.0


From 5fb64e7481123b8ca0f913452e198a3026233314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 08/26] fix: accept the explicit form of continued vertical
 merges

<w:vMerge w:val="continue"/> is the spelled-out form of <w:vMerge/>, it aborted
the conversion.
---
 src/spex/htmlspec/docx/tablewrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index e6bc9ca..c4b9603 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -52,7 +52,7 @@ class TableWrap:
                 return VerticalMergeState.NONE
             assert isinstance(merge_elem, _Element)
             row_val = Xpath.attr_first(merge_elem, "@w:val")
-            if row_val:
+            if row_val and row_val != "continue":
                 assert row_val == "restart"
                 return VerticalMergeState.RESTART
             else:
-- 
2.43.0


From 47af87692e50d6206557f7d665f57a32ae8ec757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 09/26] fix: let the schema accept the textual bounds of
 dynamic lists

Rows of dynamic list tables have their bounds as text, which the schema
rejected, so --validate-json failed for documents with such tables (three of
the example documents).
---
 src/spex/resources/stage2.schema.json | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spex/resources/stage2.schema.json b/src/spex/resources/stage2.schema.json
index c7eaea1..ea07704 100644
--- a/src/spex/resources/stage2.schema.json
+++ b/src/spex/resources/stage2.schema.json
@@ -150,6 +150,18 @@
                             }
                           }
                         },
+                        {
+                          "description": "bounds given as text, used for the rows of a dynamic list",
+                          "type": "object",
+                          "properties": {
+                            "low": {
+                              "type": "string"
+                            },
+                            "high": {
+                              "type": "string"
+                            }
+                          }
+                        },
                         {
                           "description": "special range signifying a gap in the data-structure's definition",
                           "type": "object",
-- 
2.43.0


From c2237865665ff2d42db9727cb68162ab2a3ce5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 10/26] fix: read and write models as UTF-8 in any locale

The encoding of HTML and JSON models was that of the process locale.
---
 src/spex/jsonspec/parse.py     | 2 +-
 src/spex/validate.py           | 6 ++++--
 src/spex/writer.py             | 4 +++-
 src/spexsrv/application/app.py | 6 +++---
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/spex/jsonspec/parse.py b/src/spex/jsonspec/parse.py
index 0a03ced..673f081 100644
--- a/src/spex/jsonspec/parse.py
+++ b/src/spex/jsonspec/parse.py
@@ -34,7 +34,7 @@ class SpecDocument:
 
 # TODO determine what to return
 def open_doc(spec: Path) -> SpecDocument:
-    return html_to_spec_doc(spec.absolute().read_text())
+    return html_to_spec_doc(spec.absolute().read_text(encoding="utf-8"))
 
 
 def html_to_spec_doc(html_doc: str) -> SpecDocument:
diff --git a/src/spex/validate.py b/src/spex/validate.py
index 8cc77fb..9b7fc7f 100644
--- a/src/spex/validate.py
+++ b/src/spex/validate.py
@@ -11,7 +11,9 @@ from jsonschema import validate
 
 def validate_json(document_path: Path) -> None:
     schema = (
-        resources.files("spex.resources").joinpath("stage2.schema.json").read_text()
+        resources.files("spex.resources")
+        .joinpath("stage2.schema.json")
+        .read_text(encoding="utf-8")
     )
-    document = document_path.read_text()
+    document = document_path.read_text(encoding="utf-8")
     validate(json.loads(document), json.loads(schema))
diff --git a/src/spex/writer.py b/src/spex/writer.py
index 1c26530..ca3499d 100644
--- a/src/spex/writer.py
+++ b/src/spex/writer.py
@@ -73,7 +73,9 @@ class FileWriter:
         fname = src.name[: -len(src.suffix)]
         self._output = output / f"{fname}.json"
         self._src = src
-        self._dst: Optional[TextIOWrapper] = open(self._output, "w")
+        self._dst: Optional[TextIOWrapper] = open(
+            self._output, "w", encoding="utf-8"
+        )
         self._doc: S2Model = {
             "meta": {},
             "entities": [],
diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 3eb79cd..880650d 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -33,9 +33,9 @@ async def render_template(tpl: str, **ctx: str) -> str:
     static = Path(app.static_folder)
 
     if bundle:
-        with open(static / Path("alpinejs.3.13.5.js")) as fh:
+        with open(static / Path("alpinejs.3.13.5.js"), encoding="utf-8") as fh:
             ctx["alpinejs_src"] = fh.read()
-        with open(static / Path("bulma-0.9.4.min.css")) as fh:
+        with open(static / Path("bulma-0.9.4.min.css"), encoding="utf-8") as fh:
             ctx["bulma_src"] = fh.read()
     else:
         ctx["bulma_url"] = url_for("static", filename="bulma-0.9.4.min.css")
@@ -122,7 +122,7 @@ async def report(hash: str) -> str:
     json_fpath = cached_report(hash)
     html_fpath = json_fpath.with_suffix(".html")
 
-    with open(json_fpath) as fh:
+    with open(json_fpath, encoding="utf-8") as fh:
         report_json = json.load(fh)
 
     erroneous_figure_ids: Set[str] = {
-- 
2.43.0


From 6c6e04c0f221051ee1f446c14a5393845125c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 11/26] fix: report failures to write the HTML model

The HTML model was written when the renderer happened to be collected, where
exceptions are ignored, so after a failing write an older HTML model in the
output directory was parsed in its place.
---
 src/spex/htmlspec/htmlrenderer.py | 7 ++++++-
 src/spex/parse.py                 | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 4512ebf..e94190f 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -262,10 +262,15 @@ class SpexHtmlRenderer:
               process."""
         return len(self._document.tables)
 
-    def __del__(self) -> None:
+    def close(self) -> None:
+        """write the HTML and CSS files."""
         if self._destroyed:
             return
+        self._destroyed = True
         self._css_writer.__exit__(None, None, None)
         self._css_doc = None
         self._html_writer.__exit__(None, None, None)
         self._html_doc = None
+
+    def __del__(self) -> None:
+        self.close()
diff --git a/src/spex/parse.py b/src/spex/parse.py
index a1bddf2..0e09792 100644
--- a/src/spex/parse.py
+++ b/src/spex/parse.py
@@ -39,7 +39,8 @@ def parse_spec(
                 for _ in gen:
                     pass
         finally:
-            del sp
+            # errors of writing the HTML model must not go unnoticed
+            sp.close()
 
     with get_writer(spec, args.output_dir) as w:
         sdoc = parse.open_doc(spec)
-- 
2.43.0


From 4a5d5d70ed3b8f411aba022b5cfa5122ac4b7590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 12/26] fix: skip tables without rows

A top-level table without any row aborted the run, even with
--skip-figure-on-error.
---
 src/spex/jsonspec/document.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 4e31b50..b7dd57b 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -193,7 +193,10 @@ class DocumentParser:
             if inner_tbl is not None and inner_tbl.tag == "table":
                 tbl = inner_tbl
 
-            fig_tr = Xpath.elem_first_req(tbl, "./tr[1]")
+            fig_tr = Xpath.elem_first(tbl, "./tr[1]")
+            if fig_tr is None:
+                # no rows, hence no title either
+                continue
             # remove entire tr to simplify downstream processing between top-level and
             # nested figures.
             parent = fig_tr.getparent()
-- 
2.43.0


From e18dd75f1e1dec9fcf9ec451bec5ef4e4a48a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 13/26] fix: contain figures which their special extractor
 cannot read

With --skip-figure-on-error such a figure aborted the run instead of being
skipped with a T1000 lint entry.
---
 src/spex/jsonspec/document.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index b7dd57b..e1e0d94 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -296,9 +296,17 @@ class DocumentParser:
             # extractor_cls not None, class gotten from override
             mapping = extractor_cls.can_apply(tbl_hdrs)
             if mapping is None:
-                raise RuntimeError(
-                    "override class failed to detect columns to extract from"
-                )
+                logger.log(ULog.ERROR, f"failed parsing figure {entity!r}")
+                self._unwind_parse_error = True
+                err_ctx: Dict[str, JSON] = {}
+                if "title" in entity:
+                    err_ctx["title"] = entity["title"]
+                self.linter.add_issue(LintErr.TBL_PARSE_ERR, fig_id, ctx=err_ctx)
+                if "parent_fig_id" in entity or self.args.skip_fig_on_error is False:
+                    raise RuntimeError(
+                        "override class failed to detect columns to extract from"
+                    )
+                return
 
         assert mapping is not None  # only needed to appease type-checking
         e = extractor_cls(
-- 
2.43.0


From 596350b39660ac27ae3a824fda869c0c457bf663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 14/26] fix: count nested tables in the estimate of figures

The estimate serves as total of the progress report, documents with nested
tables had progress beyond 100%.
---
 src/spex/jsonspec/document.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index e1e0d94..e4ac58c 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -183,7 +183,8 @@ class DocumentParser:
         NOTE: some figures may be skipped due to missing information
               so this value represents an upper bound on the number of
               figures being processed."""
-        return len(self._figures())
+        # nested tables become figures too
+        return len(Xpath.elems(self.doc, "./body//table"))
 
     def iter_figures(self) -> Iterator[Tuple[EntityMeta, "Element"]]:
         for tbl in self._figures():
-- 
2.43.0


From f10d10994d143c424d8c59763058bdabafac54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 15/26] fix: do not underline or strike text where the docx
 turns it off

An explicit w:u val=none or w:strike val=0 gave underlined/struck text, and the
values false and off were taken for on.
---
 src/spex/htmlspec/docx/runproperties.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index d01644d..8bb18fa 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -173,9 +173,9 @@ class RunProperties:
         # underline and strikethrough (line-through) are governed by the same
         # css property.
         txt_dec_line = []
-        if self.__underline is not None:
+        if self.__underline:
             txt_dec_line.append("underline")
-        if self.__strikethrough is not None:
+        if self.__strikethrough:
             txt_dec_line.append("line-through")
         if txt_dec_line:
             attrs["text-decoration-line"] = " ".join(txt_dec_line)
@@ -209,12 +209,13 @@ class RunProperties:
             #   ...because we use this value to signal that the rPr did
             #   not explicitly disable the prop either.
             # if present w/o w:val attr -> True
-            # if present with w:val attr -> "1" is True, "0" is false
+            # if present with w:val attr -> "1" is True, "0" is false, as are
+            #   the other spellings (false, off) of an ST_OnOff value
             r1 = Xpath.elem_first(e, selector)
             if r1 is None:
                 return None
             r2 = Xpath.attr_first(r1, "./@w:val")
-            return r2 is None or r2.strip() != "0"
+            return r2 is None or r2.strip() not in ("0", "false", "off")
 
         def u_val(e: _Element) -> Optional[bool]:
             r1 = Xpath.elem_first(e, "./w:u")
-- 
2.43.0


From 2576a193fe00b351180d0dbba9913712bf432d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 16/26] fix: ignore references to undefined styles

A run style or base style which the docx does not define aborted the
conversion, it has no effect otherwise.
---
 src/spex/htmlspec/docx/styles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/styles.py b/src/spex/htmlspec/docx/styles.py
index 1a5e56f..925984a 100644
--- a/src/spex/htmlspec/docx/styles.py
+++ b/src/spex/htmlspec/docx/styles.py
@@ -41,10 +41,13 @@ class StyleResolver:
         # get entry
         # if w:basedOn exists, resolv (using same fn, causing caching),
         # return merge(<basedOn>, <this>)
-        style = Xpath.elem_first_req(
+        style = Xpath.elem_first(
             self._style_doc,
             f"./w:style[@w:type = '{self._style_type}'][@w:styleId = '{style_id}']",
         )
+        if style is None:
+            # reference to an undefined style, has no effect
+            return None
         based_on = Xpath.attr_first(style, "./w:basedOn/@w:val")
         rpr = RunProperties.from_rpr_elem(Xpath.elem_first(style, "./w:rPr"))
         if based_on is None:
@@ -55,7 +58,7 @@ class StyleResolver:
         return based_on_rpr.merge(rpr) if based_on_rpr is not None else rpr
 
     def get_style(self, style_id: str) -> Optional[RunProperties]:
-        canonical_style_name = self._style_aliases[style_id]
+        canonical_style_name = self._style_aliases.get(style_id, style_id)
         return self.__get_style(canonical_style_name)
 
 
-- 
2.43.0


From 5d9ec362040341fbf48e29fb17eea8be2a5f61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 17/26] fix: place list paragraphs without a level on the
 outermost

w:ilvl is optional in w:numPr, its absence aborted the conversion.
---
 src/spex/htmlspec/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index a6cdeaa..d372cc9 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -137,6 +137,10 @@ class SpexParser:
             return False
         return self._document.numbering_xml.has_num_id(num_id)
 
+    def __p_list_level(self, e: _Element) -> int:
+        # the level is optional, and defaults to the outermost
+        return int(Xpath.attr_first(e, "./w:pPr/w:numPr/w:ilvl/@w:val") or 0)
+
     def _parse_list(self, stream: Stream[_Element]) -> List:
         current = stream.peek()
         assert current.tag == Tag.p.value, f"assumed w:p tag, got {current.tag!r}"
@@ -148,7 +152,7 @@ class SpexParser:
         ), "cannot have numbering styles w/o a numbering document"
         style = self._document.numbering_xml.get_style(num_id)
 
-        ilvl = int(Xpath.attr_first_req(current, "./w:pPr/w:numPr/w:ilvl/@w:val"))
+        ilvl = self.__p_list_level(current)
         slvl = style.get_ilvl(ilvl)
 
         return List(
@@ -181,9 +185,7 @@ class SpexParser:
                 # different list
                 break
 
-            child_ilvl = int(
-                Xpath.attr_first_req(child, "./w:pPr/w:numPr/w:ilvl/@w:val")
-            )
+            child_ilvl = self.__p_list_level(child)
             if child_ilvl > ilvl:
                 # nested list
                 yield self._parse_list(stream)
-- 
2.43.0


From 326781d7a2edde2fc39e4ca0f362d18e0b25d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 18/26] fix: keep reserved and obsolete rows with further text
 in their cell

A bits/bytes row whose name reads Reserved or Obsolete was dropped without
notice if its description cell had any text besides, leaving a gap.
---
 src/spex/jsonspec/extractors/structtable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 926ebee..fd64fb1 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -175,7 +175,11 @@ class StructTableExtractor(FigureExtractor, ABC):
                 if self.is_special_case(range_field):
                     continue
                 elif field := self.handle_special_case(
-                    content=content_field,
+                    content=(
+                        content_field
+                        if self.is_special_case(content_field)
+                        else label_field
+                    ),
                     range=self._parse_range(range_field, range_field),
                 ):
                     fields.append(field)
-- 
2.43.0


From 454ba9841d2a530596e013d664986f016fce9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 19/26] fix: report labels that end in a line break

---
 src/spex/jsonspec/extractors/regular_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/regular_expressions.py b/src/spex/jsonspec/extractors/regular_expressions.py
index 69e2f00..7dcf78b 100644
--- a/src/spex/jsonspec/extractors/regular_expressions.py
+++ b/src/spex/jsonspec/extractors/regular_expressions.py
@@ -64,7 +64,7 @@ DYNAMIC_RANGE_REGEX = compile(
 
 ELLIPSIS_LABEL_REGEX = compile(r"^[\s]*[\.\.\.]|[…][\s]*$")
 
-LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\w]*$")
+LABEL_VALIDATION_REGEX = compile(r"^[a-zA-Z][\w]*\Z")
 
 LABEL_NUMERICAL_REARRANGE_REGEX = compile(r"^(\d+)(.*)")
 
-- 
2.43.0


From b40baa5d8fe604b47506ce60668905705bedd4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 20/26] fix: keep line breaks of docx text in the HTML model

Line breaks in runs were written as a backslash followed by an n.
---
 src/spex/htmlspec/htmlrenderer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index e94190f..71e3fcb 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -2,7 +2,7 @@
 #
 # SPDX-License-Identifier: BSD-3-Clause
 
-from html import escape as html_escape
+import html
 from pathlib import Path
 from typing import Any, Generator, Optional, Set, Tuple, TypeAlias
 
@@ -25,6 +25,19 @@ from spex.htmlspec.parser import (
 ProgressStatus: TypeAlias = Tuple[int, int]  # processing figure X of Y figures
 
 
+def html_escape(text: str) -> str:
+    """escape text, retaining its line breaks and tabs.
+
+    Written as they are, `Section.emit` would spell out line breaks (as \\n), and
+    line breaks and tabs of attribute values would be read as blanks."""
+    return (
+        html.escape(text)
+        .replace("\t", "&#9;")
+        .replace("\n", "&#10;")
+        .replace("\r", "&#13;")
+    )
+
+
 # TODO: nicer way of using `write_file` ?
 class SpexHtmlRenderer:
     def __init__(self, docx_path: Path, out_dir: Optional[Path] = None):
-- 
2.43.0


From bb40c1dcd503883ef8800d8946adf220fa49b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 21/26] fix: leave no temporary HTML file if the CSS file
 cannot be written

---
 src/spex/htmlspec/htmlrenderer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 71e3fcb..326bb74 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -280,10 +280,13 @@ class SpexHtmlRenderer:
         if self._destroyed:
             return
         self._destroyed = True
-        self._css_writer.__exit__(None, None, None)
-        self._css_doc = None
-        self._html_writer.__exit__(None, None, None)
-        self._html_doc = None
+        try:
+            self._css_writer.__exit__(None, None, None)
+            self._css_doc = None
+        finally:
+            # even if the CSS file cannot be written, leave no temporary file
+            self._html_writer.__exit__(None, None, None)
+            self._html_doc = None
 
     def __del__(self) -> None:
         self.close()
-- 
2.43.0


From d39d7cadcd4f2b530b1c1f24c1e3ab7f906b1046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 22/26] fix: write HTML models in UTF-8, whatever the locale

---
 src/spex/htmlspec/htmlrenderer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 326bb74..58f0169 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -38,6 +38,15 @@ def html_escape(text: str) -> str:
     )
 
 
+class Utf8WriteFile(write_file):  # type: ignore[misc]
+    """writes in UTF-8, as the model declares, whichever encoding the locale has."""
+
+    def __enter__(self) -> Section:
+        section = super().__enter__()
+        self._fh.reconfigure(encoding="utf-8")
+        return section
+
+
 # TODO: nicer way of using `write_file` ?
 class SpexHtmlRenderer:
     def __init__(self, docx_path: Path, out_dir: Optional[Path] = None):
@@ -50,13 +59,13 @@ class SpexHtmlRenderer:
             out_dir = docx_path.parent
 
         self._html_path = out_dir / f"{self._fname}.html"
-        self._html_writer = write_file(self._html_path)
+        self._html_writer = Utf8WriteFile(self._html_path)
         self._html_head = Section()
         self._html_body = Section()
         self._html_doc: Optional[Section] = self._html_writer.__enter__()
 
         self._css_path = out_dir / f"{self._fname}.css"
-        self._css_writer = write_file(self._css_path)
+        self._css_writer = Utf8WriteFile(self._css_path)
         self._css_doc: Optional[Section] = self._css_writer.__enter__()
         # from props -> name
         self._css_txtfmt_cache = css.CssCache("txtfmt")
-- 
2.43.0


From f2dd87d5084cc6de61c880a45998addf120a32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 23/26] fix: convert docx files whose names are not text of the
 locale

---
 src/spex/htmlspec/htmlrenderer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 58f0169..247f17d 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -3,6 +3,7 @@
 # SPDX-License-Identifier: BSD-3-Clause
 
 import html
+import os
 from pathlib import Path
 from typing import Any, Generator, Optional, Set, Tuple, TypeAlias
 
@@ -161,7 +162,8 @@ class SpexHtmlRenderer:
             s.emit(f' data-revision="{html_escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        fname = html_escape(self._fname)
+        # file names need not be text of the locale (or of any encoding)
+        fname = html_escape(os.fsencode(self._fname).decode("utf-8", "replace"))
         s.emitln(f"<title>{fname}</title>")
         s.add_section(self._html_head)
         s.emitln(f'<link rel="stylesheet" href="{fname}.css"/>')
-- 
2.43.0


From 41ab0b4600709c64f64819eb6aaafc1e4af840cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 24/26] fix: upload page misses events that are split across
 network chunks

The network may cut the stream anywhere, so an event's line may arrive in
several chunks. Keep the unfinished line until the rest of it arrives.
---
 src/spexsrv/templates/upload-form.html | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spexsrv/templates/upload-form.html b/src/spexsrv/templates/upload-form.html
index ebef2dc..4312d86 100644
--- a/src/spexsrv/templates/upload-form.html
+++ b/src/spexsrv/templates/upload-form.html
@@ -126,14 +126,16 @@ const submitForm = () => {
         if (rsp.ok) {
             const reader = rsp.body.getReader();
             const decoder = new TextDecoder();
+            let pending = ""; // start of a line, the rest is in a later chunk
             Alpine.store("processing", true);
             return reader.read().then(function processMsg({done, value}) {
                 if (done) {
                     window.location.href = url;
                     return;
                 }
-                const chunk = decoder.decode(value);
-                chunk.split("\n").forEach((line) => {
+                const lines = (pending + decoder.decode(value, {stream: true})).split("\n");
+                pending = lines.pop();
+                lines.forEach((line) => {
                     if (line.startsWith("data: ")) {
                         try {
                             msg = JSON.parse(line.substring(6));
-- 
2.43.0


From bb657f229c8500d47771fc8189ba5a28c8ba2d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 25/26] fix: upload page leaves for /null, or hangs, when an
 upload does not complete

Without a report-completed event there is no report to go to: show the
form again, as well as when the connection is lost.
---
 src/spexsrv/templates/upload-form.html | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/templates/upload-form.html b/src/spexsrv/templates/upload-form.html
index 4312d86..807469e 100644
--- a/src/spexsrv/templates/upload-form.html
+++ b/src/spexsrv/templates/upload-form.html
@@ -130,7 +130,11 @@ const submitForm = () => {
             Alpine.store("processing", true);
             return reader.read().then(function processMsg({done, value}) {
                 if (done) {
-                    window.location.href = url;
+                    if (url !== null) {
+                        window.location.href = url;
+                    } else { // ended without a report
+                        Alpine.store("processing", false);
+                    }
                     return;
                 }
                 const lines = (pending + decoder.decode(value, {stream: true})).split("\n");
@@ -164,6 +168,7 @@ const submitForm = () => {
             });
         }
     }).catch(error => {
+        Alpine.store("processing", false);
         console.error("ERROR:", error);
     });
 }
-- 
2.43.0


From f94d7ad283585c79e49a5f2901ce7c6fcd561b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:00 +0000
Subject: [PATCH 26/26] fix: HTML models of names with characters such as # or
 : do not find their style sheet

---
 src/spex/htmlspec/htmlrenderer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 247f17d..4e60b86 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -6,6 +6,7 @@ import html
 import os
 from pathlib import Path
 from typing import Any, Generator, Optional, Set, Tuple, TypeAlias
+from urllib.parse import quote
 
 from gcgen.api import Section, write_file
 from lxml.etree import _Element
@@ -166,7 +167,9 @@ class SpexHtmlRenderer:
         fname = html_escape(os.fsencode(self._fname).decode("utf-8", "replace"))
         s.emitln(f"<title>{fname}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{fname}.css"/>')
+        # a reference, where characters such as `#` or `:` have a meaning
+        href = quote(os.fsencode(self._fname))
+        s.emitln(f'<link rel="stylesheet" href="{href}.css"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0

