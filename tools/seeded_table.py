import json,glob,os
missed={"c41-parent-slices":"the view of every layer was not compared after changes; compared for all multiplex networks now",
"c29-zero-clears":"weight zero was never written through views; added",
"c06-ordinal-near":"ordinal layers were always whole numbers; names half apart added",
"c18-source-ties":"C18 had positive weights only; zero weights added (which showed two defects, now repaired)",
"c37-last-depth":"few subgraphs with many layers; networks with three layers and zero at every single depth added",
"c16-randomize-nodemap":"C16 only checked one outcome; frequency monitor over 600 randomizations added",
"c29-kwargs-graph-names":"C29 only passed networks by position; keyword calls added",
"c30-nested-restore":"C30 had no nested wrapped calls; callbacks that use wrapped graphs added",
"c34-recount":"C34 always counted into a fresh dictionary; recounts after changes added",
"c35-times-shared":"needs graphlets of five nodes; five-node single-layer family added",
"c37-seed-zero":"C37 drew positive integer seeds; 0, '', b'', False, negative and float seeds added",
"c38-lengths-odd":"C38 stopped at four layers; up to seven layers added",
"c09-supra-remembered":"networks were only looked at unfinished before; they are now also complete up to one moved link or exchanged weights",
"c17-degs-remembered":"as c09-supra-remembered",
"c29-tuple-links":"no tuples that stand for links were passed to wrapped functions",
"c43-layer-nodes-scan":"the cost of asking for a node of a layer was not counted",
"c43-er-all-pairs":"costs of generators were not counted",
"c40-normalize-inplace":"coordinates never had a maximum of exactly zero; degenerate pools added"}
L=["","All are caught by the check of the property named (quick tier, seed 1). 'First missed' tells what the check lacked when the change was planted.","",
"| change | caught by | needs | first missed because |","|---|---|---|---|"]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); i=os.path.basename(d)
    L.append("| %s | %s | %s | %s |"%(i,m["property"],m["needs"],m.get("missed_first") or missed.get(i,"")))
s=open('/verif/DESIGN.md').read()
h=s.index("`seeded/<id>/` holds the changes")
s=s[:h]+"`seeded/<id>/` holds the changes used to test the machinery; each was confirmed in a scratch namespace (applies, builds, stable tests\npass, demo 0 / nonzero).\n"+"\n".join(L)+"\n"
open('/verif/DESIGN.md','w').write(s)
