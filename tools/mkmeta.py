import json,sys,os
M={
"p05-reader-limit":("P05","as many simultaneous readers as the lock's counter can hold","The last reader turns the counter into the writer mark; its release frees the lock although readers still hold it."),
"p05-upgrade-state":("P05","a second reader, so that an upgrade to a writer lock fails","A failed upgrade forgets the reader lock, which is never released."),
"p06-first-ref":("P06","initialisation of the shared object fails for the first user","The failed reference stays counted: the next user finds an object that was never initialised."),
"p07-lost-race":("P07","two threads that create a value for the same key at the same time","The loser of the race returns the value it has just destroyed."),
"p02-commit-error":("P02","an irrevocable transaction with a module that refuses to commit with an error","A recoverable error is reported as non-recoverable and the transaction is not rolled back."),
"p04-begin-error":("P04","a module that fails to begin, then a transaction of another thread that becomes irrevocable","The transaction that failed to begin keeps the lock of revocable transactions forever."),
"p14-queue-front":("P14","a transaction that pushed to an empty queue and looks at its front while another one commits a push","The queue is read without its lock, so the transaction is not serializable."),
"p12-erase-parent":("P12","erasing an entry with entries on both sides, the upper of which has smaller entries of its own","A sub-tree gets the wrong parent: iteration leaves out entries."),
"p10-xchg":("P10","a store of part of a word followed by privatisation of another part","Bytes that were never loaded are swapped into memory."),
}
M.update(json.load(open(os.path.dirname(__file__)+"/metas.json")) if os.path.exists(os.path.dirname(__file__)+"/metas.json") else {})
for i,(p,n,w) in M.items():
    d=f"/verif/seeded/{i}"
    if os.path.isdir(d): json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
