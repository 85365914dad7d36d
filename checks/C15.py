from vf.driver import Check, H
from vf.values import setup
N = ("Construct", "ConstructDefault", "ConstructText", "GetWrongType", "GetIntOfOther", "WriteThrough", "MoveConstruct", "MoveAssign", "AssignSource", "SelfMove", "AssignElement", "AssignEntry", "AssignDeep", "AssignSibling")
CHECK = Check("C15", ["C15.cc"], ["rst/value/value.cc"], [H(n) for n in N], setup=setup,
    trusted=["std::vector<Value> and std::map<std::string, Value> construct, move and destroy their elements as [container.requirements] says; a moved-from one is empty"],
    assumptions=["the arrays and objects of the harnesses have at most two entries: Value's own code never looks into them"])
