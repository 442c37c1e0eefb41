class PrettyTable: pass
