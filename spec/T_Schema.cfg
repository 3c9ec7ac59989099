SPECIFICATION SJSpec
