CONSTANTS Requests = {1, 2}
          MaxCalls = 3
SPECIFICATION Spec
INVARIANTS Right OnlyUser
