SPECIFICATION JSpec
