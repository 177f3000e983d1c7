T1 = "TLA+ specification of the docx conversion (TLC) with model-generated tests and trace checking of real runs"
S1 = ("TLC explores a bounded family of docx documents exhaustively and checks the property on the specification; the real command converts every one of them and the events of its HTML "
      "model (read with an independent HTML and CSS reader) are judged against the specification's machine by TLC, as are random docx. Trusts the harness's docx writer and HTML/CSS reader, and TLC.")
DONE.update({f"C{n}": (T1, S1) for n in (17, 18, 19, 20, 21, 31)})
DONE["C22"] = ("TLA+ specification of both stages composed (TLC), model-generated tests and trace checking of real runs",
               "The machines of both stages are composed in one module, figures of the docx are compared with the resulting model by invariants; the real command runs on every explored docx and on the HTML model it made of it, "
               "and both outcomes must be that of the composition; random docx are judged by the trace modules of both stages.")
TR = "TLA+ specification of histories of runs (TLC) with model-generated histories and trace checking of real runs"
SR = ("TLC explores all short histories of runs over 14 sorts of inputs, options and write failures and checks the property; every history is executed by the real command (in one process and in processes of their own, "
      "in several environments, with size limits, kills and missing permissions) and the recorded exit statuses and directory contents are judged by TLC; contents are compared with reference runs that the parser's "
      "specification judges. Trusts the recording harness, jsonschema as the judge of conformance, and TLC.")
DONE["C15"] = DONE["C16"] = (TR, SR)
TV = "TLA+ specification of the report server (TLC) with all interleavings as model-generated schedules and trace checking of the recorded ones"
SV = ("TLC explores all interleavings of two or three uploads' steps (posting, taking an event, going away) and checks the property on the specification; the schedules are executed on the real server application "
      "(ASGI, every event held back until its turn, unprivileged in a scratch directory) with requests for every report after every step, and the recorded histories are judged against the specification by TLC, "
      "as are long random ones. Trusts the ASGI driver, the readers of models and report pages, and TLC.")
DONE.update({f"C{n}": (TV, SV) for n in range(23, 28)})
TP = "TLA+ specification of the server's pages (TLC) with model-generated histories run on the real pages and trace checking of what they show"
SP = ("TLC explores the histories of the pages (chunks, ends and losses of the stream; clicks) and checks the property on the specification; the pages that the real server sends are run with their own scripts and the shipped Alpine "
      "library in node on a small document object model, and what is visible after every action is judged against the specification by TLC, as are long random histories. Trusts that object model, the reader of what is visible, and TLC.")
DONE["C28"] = DONE["C29"] = (TP, SP)
DONE["C30"] = ("TLA+ specification of the parser and of histories of runs (TLC) with model-generated tests and trace checking of what real runs say",
               "TLC explores families of documents and histories of runs and checks the property on the messages of the specification; every document is parsed by the real command and the messages it writes must be those of the "
               "specification; histories are executed (in one process and in processes of their own) and the recorded messages and log are judged by TLC, as are random documents. Trusts the reader of messages and TLC.")
