""" the parts of the library that a user builds an application with """
from richard.block.FindAll import FindAll
from richard.block.FindOne import FindOne
from richard.block.TryFirst import TryFirst
from richard.core.BasicGenerator import BasicGenerator
from richard.core.Logger import Logger
from richard.core.Model import Model
from richard.core.Solver import Solver
from richard.core.System import System
from richard.core.constants import *
from richard.data_source.SimpleDataSource import SimpleDataSource
from richard.data_source.Sqlite3DataSource import Sqlite3DataSource
from richard.entity.ProcessResult import ProcessResult
from richard.entity.ReifiedVariable import ReifiedVariable
from richard.entity.Relation import Relation
from richard.entity.ResultIterator import ResultIterator
from richard.entity.SentenceRequest import SentenceRequest
from richard.entity.Variable import Variable
from richard.interface.SomeModule import SomeModule
from richard.interface.SomeProcessor import SomeProcessor
from richard.module.BasicDialogContext import BasicDialogContext
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.module.GrammarModule import GrammarModule
from richard.module.InferenceModule import InferenceModule
from richard.module.SimpleMemoryModule import SimpleMemoryModule
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.helper.grammar_functions import apply
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
from richard.type.InferenceRule import InferenceRule
from richard.type.SemanticTemplate import SemanticTemplate


def read_grammar(simple):
    return SimpleGrammarRulesParser().parse_read_grammar(simple)


def write_grammar(simple):
    return SimpleGrammarRulesParser().parse_write_grammar(simple)


def to_atoms(value):
    """ the plain form of cases ('?X' for a variable) -> atoms of the library """
    if isinstance(value, str) and value.startswith("?"):
        return Variable(value[1:])
    if isinstance(value, list):
        return [to_atoms(v) for v in value]
    if isinstance(value, tuple):
        return tuple(to_atoms(v) for v in value)
    return value


def from_atoms(value):
    if isinstance(value, Variable):
        return "?" + value.name
    if isinstance(value, list):
        return [from_atoms(v) for v in value]
    if isinstance(value, tuple):
        return tuple(from_atoms(v) for v in value)
    return value


class TableModule(SomeModule):
    """ relations with an in-memory extension; keeps a record of the calls """

    def __init__(self, tables, sizes=None, calls=None):
        super().__init__()
        self.tables = tables
        self.calls = calls if calls is not None else []
        for name, rows in tables.items():
            kwargs = {}
            if sizes and sizes.get(name):
                kwargs = {"relation_size": sizes[name][0], "argument_sizes": sizes[name][1]}
            self.add_relation(Relation(name, query_function=self.query, **kwargs))

    def query(self, values, context):
        name = context.relation.predicate
        rows = [list(row) for row in self.tables[name] if all(v is None or v == r for v, r in zip(values, row))]
        self.calls.append((name, tuple(v if not isinstance(v, list) else repr(v) for v in values), len(rows)))
        return rows
