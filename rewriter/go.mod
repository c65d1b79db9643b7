module verif.local/rewriter

go 1.23
