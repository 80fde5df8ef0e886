"""specification functions written as code: interpreted symbolically like the code under contract"""
