#![allow(unused_imports, dead_code)]
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
use cfg_history::earley::History;
use cfg_history::RootHistoryNode;
use cfg_symbol::{Symbol, SymbolSource};

