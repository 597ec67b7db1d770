# Reference equations (parsed by the checker, never executed).
import numpy as np
import operator as op
from libecalc.common.errors.exceptions import EcalcErrorType
from libecalc.common.temporal_model import TemporalModel
from libecalc.common.time_utils import define_time_model_for_period
from libecalc.dto.utils.validators import convert_expression
from libecalc.expression.expression import Expression, InvalidExpressionError, _expression_as_number_if_number
from libecalc.expression.expression_evaluator import Token, TokenTag, lex, lexer
from libecalc.expression.expression_tree import Node, Operator, get_associativity, get_operation, get_operator, get_postfix, get_precedence, get_tree
from libecalc.expression.extract_expressions import _collect_expression_values, _contains_expression_type, _has_expression_marker, _is_expression_type, _is_pydantic_model, _unwrap_to_model_types
from libecalc.presentation.yaml.domain.time_series_mask import TimeSeriesMask
from libecalc.presentation.yaml.yaml_types.components.yaml_expression_type import EXPRESSION_MARKER
from pydantic import BaseModel
from pydantic_core import core_schema
from typing import assert_never
operand_types = (TokenTag.numeric, TokenTag.reference)


@target("libecalc.expression.expression", props=["C06"])
class K0_constants:
    LEFT_PARENTHESIS_TOKEN = Token(tag=TokenTag.operator, value='(')
    RIGHT_PARENTHESIS_TOKEN = Token(tag=TokenTag.operator, value=')')
    MULTIPLICATION_TOKEN = Token(tag=TokenTag.operator, value='{*}')


@target("libecalc.expression.expression.InvalidExpressionError.__init__", props=["C06"])
def InvalidExpressionError_init(self, message, expression_str):
    super().__init__(title=f"Invalid expression '{expression_str}'", message=message, error_type=EcalcErrorType.CLIENT_ERROR)


@target("libecalc.expression.expression.Expression.__init__", props=["C06"])
def Expression_init(self, tokens):
    self.tokens = tokens
    try:
        postfix = get_postfix(tokens)
        self.tree = get_tree(postfix)
    except ValueError as e:
        raise InvalidExpressionError(message=str(e), expression_str=str(self))


@target("libecalc.expression.expression.Expression.setup_from_expression", props=["C06"])
def Expression_setup_from_expression(cls, value):
    tokens = cls.validate(value)
    return cls(tokens=tokens)


@target("libecalc.expression.expression.Expression.variables", props=["C06"])
def Expression_variables(self):
    return [str(token.value) for token in self.tokens if token.tag == TokenTag.reference]


@target("libecalc.expression.expression.Expression.multiply", props=["C06"])
def Expression_multiply(cls, expression1, expression2):
    tokens1 = expression1.tokens
    tokens2 = expression2.tokens
    tokens_multiplied = [LEFT_PARENTHESIS_TOKEN] + tokens1 + [RIGHT_PARENTHESIS_TOKEN] + [MULTIPLICATION_TOKEN] + [LEFT_PARENTHESIS_TOKEN] + tokens2 + [RIGHT_PARENTHESIS_TOKEN]
    return cls(tokens=tokens_multiplied)


@target("libecalc.expression.expression.Expression.validate", props=["C06"])
def Expression_validate(cls, expression):
    expression = _expression_as_number_if_number(expression_input=expression)
    if not isinstance(expression, str | float | int):
        raise InvalidExpressionError('Expression should be of type str, int or float', expression_str=str(expression))
    try:
        return lexer(expression)
    except (KeyError, ValueError) as e:
        raise InvalidExpressionError(message=str(e), expression_str=str(expression))


@target("libecalc.expression.expression.Expression.__get_pydantic_core_schema__", props=["C06"])
def Expression_get_pydantic_core_schema(cls, source_type, handler):

    def parse_expression(x):
        if isinstance(x, Expression):
            return x
        try:
            return Expression(tokens=cls.validate(x))
        except InvalidExpressionError as e:
            raise ValueError()
    from_str_schema = core_schema.chain_schema([core_schema.no_info_plain_validator_function(parse_expression)])

    def serialize_expression(instance):
        if isinstance(instance, list):
            return [serialize_expression(x) for x in instance]
        if isinstance(instance, Expression):
            return str(instance)
        raise ValueError()
    return core_schema.json_or_python_schema(json_schema=from_str_schema, python_schema=core_schema.union_schema([core_schema.is_instance_schema(Expression), from_str_schema]), serialization=core_schema.plain_serializer_function_ser_schema(serialize_expression))


@target("libecalc.expression.expression.Expression.validator", props=["C06"])
def Expression_validator(cls, expression):
    if isinstance(expression, Expression):
        return expression
    tokens = cls.validate(expression=expression)
    instance = cls(tokens=tokens)
    return instance


@target("libecalc.expression.expression.Expression.evaluate", props=["C06"])
def Expression_evaluate(self, variables, fill_length):
    missing_references = [reference_id for reference_id in self.variables if reference_id not in variables]
    if len(missing_references) != 0:
        msg = f'Unable to evaluate expression. Missing reference(s) {', '.join(missing_references)}'
        raise InvalidExpressionError(msg, expression_str=str(self))
    return self.tree.evaluate(variables, fill_length)


@target("libecalc.expression.expression.Expression.__eq__", props=["C06"])
def Expression_eq(self, other):
    if not isinstance(other, Expression):
        return NotImplemented
    return self.tokens == other.tokens


@target("libecalc.expression.expression.Expression.__get_pydantic_json_schema__", props=["C06"])
def Expression_get_pydantic_json_schema(cls, _core_schema, handler):
    return handler(core_schema.union_schema([core_schema.int_schema(), core_schema.float_schema(), core_schema.str_schema()]))


@target("libecalc.expression.expression._expression_as_number_if_number", props=["C06"])
def f_expression_as_number_if_number(expression_input):
    if isinstance(expression_input, str):
        try:
            expression_as_number_if_number = float(expression_input)
        except Exception:
            expression_as_number_if_number = expression_input
    else:
        expression_as_number_if_number = expression_input
    return expression_as_number_if_number


@target("libecalc.expression.expression_evaluator.lex", props=["C06"])
def f_lex(expression, token_exprs):
    pos = 0
    tokens = []
    while pos < len(expression):
        match = None
        for token_expr in token_exprs:
            pattern, tag = token_expr
            regex = re.compile(pattern)
            match = regex.match(expression, pos)
            if match:
                text = match.group(0)
                if tag:
                    token = text
                    tokens.append(Token(tag=tag, value=token))
                break
        if not match:
            raise KeyError()
        else:
            pos = match.end(0)
    return tokens


@target("libecalc.expression.expression_evaluator.lexer", props=["C06"])
def f_lexer(expression):
    if isinstance(expression, int | float):
        return [Token(tag=TokenTag.numeric, value=expression)]
    token_exprs = [('[ \\n\\t]+', None), ('#[^\\n]*', None), ('\\:=', TokenTag.operator), ('\\(', TokenTag.operator), ('\\)', TokenTag.operator), (';', TokenTag.operator), ('\\{\\+\\}', TokenTag.operator), ('\\{-\\}', TokenTag.operator), ('\\{\\*\\}', TokenTag.operator), ('\\{/\\}', TokenTag.operator), ('\\{\\^\\}', TokenTag.operator), ('<=', TokenTag.operator), ('<', TokenTag.operator), ('>=', TokenTag.operator), ('>', TokenTag.operator), ('==', TokenTag.operator), ('!=', TokenTag.operator), ('[0-9](\\.[0-9]+)?e[-+]?[0-9]+', TokenTag.numeric), ('[0-9.]+', TokenTag.numeric), ('[A-Za-z][A-Za-z0-9._;:+*/-]*', TokenTag.reference), ('\\$var\\.[A-Za-z][A-Za-z0-9_]*', TokenTag.reference)]
    return lex(expression, token_exprs)


@target("libecalc.expression.expression_evaluator.TokenTag", props=["C06"])
class TokenTagValues:
    reference = 'ID'
    operator = 'RESERVED'
    numeric = 'NUMBER'


@target("libecalc.expression.expression_tree", props=["C06"])
class K16_constants:
    operand_types = (TokenTag.numeric, TokenTag.reference)
    OPERATORS = {'{^}': Operator(value='{^}', function=op.pow, precedence=24, associativity='RIGHT'), '{*}': Operator(value='{*}', function=op.mul, precedence=23, associativity='LEFT'), '{/}': Operator(value='{/}', function=op.truediv, precedence=23, associativity='LEFT'), '{+}': Operator(value='{+}', function=op.add, precedence=22, associativity='LEFT'), '{-}': Operator(value='{-}', function=op.sub, precedence=22, associativity='LEFT'), '==': Operator(value='==', function=op.eq, precedence=16, associativity='LEFT'), '!=': Operator(value='ne', function=op.ne, precedence=15, associativity='LEFT'), '<': Operator(value='ne', function=op.lt, precedence=14, associativity='LEFT'), '>': Operator(value='{>}', function=op.gt, precedence=13, associativity='LEFT'), '<=': Operator(value='{<=}', function=op.le, precedence=12, associativity='LEFT'), '>=': Operator(value='{>=}', function=op.ge, precedence=11, associativity='LEFT')}


@target("libecalc.expression.expression_tree.get_operator", props=["C06"])
def f_get_operator(token):
    try:
        return OPERATORS[token.value]
    except KeyError as e:
        raise ValueError()


@target("libecalc.expression.expression_tree.get_precedence", props=["C06"])
def f_get_precedence(token):
    return get_operator(token).precedence


@target("libecalc.expression.expression_tree.get_associativity", props=["C06"])
def f_get_associativity(token):
    return get_operator(token).associativity


@target("libecalc.expression.expression_tree.get_operation", props=["C06"])
def f_get_operation(token):
    return get_operator(token).function


@target("libecalc.expression.expression_tree.get_postfix", props=["C06"], opaque=["libecalc.expression.expression_tree.get_precedence", "libecalc.expression.expression_tree.get_associativity"])
def f_get_postfix(infix_tokens):
    postfix_tokens = []
    stack = []
    for token in infix_tokens:
        if token.tag in operand_types:
            postfix_tokens.append(token)
        elif token.tag == TokenTag.operator and token.value not in ['(', ')']:
            while True:
                if len(stack) == 0:
                    break
                o2 = stack[-1]
                if o2.value == '(':
                    break
                o2_precedence = get_precedence(o2)
                o1_precedence = get_precedence(token)
                if o2_precedence > o1_precedence or (o1_precedence == o2_precedence and get_associativity(token) == 'LEFT'):
                    postfix_tokens.append(stack.pop())
                else:
                    break
            stack.append(token)
        elif token.value == '(':
            stack.append(token)
        elif token.value == ')':
            while True:
                if len(stack) == 0:
                    raise ValueError()
                o2 = stack[-1]
                if o2.value != '(':
                    postfix_tokens.append(stack.pop())
                else:
                    break
            stack.pop()
    while len(stack) > 0:
        if stack[-1].value == '(':
            raise ValueError()
        postfix_tokens.append(stack.pop())
    return postfix_tokens


@target("libecalc.expression.expression_tree.Node", props=["C06"])
class NodeValues:
    left = None
    right = None


@target("libecalc.expression.expression_tree.Node.evaluate", props=["C06"])
def Node_evaluate(self, variables, fill_length):
    if self.token.tag == TokenTag.operator:
        return np.nan_to_num(get_operation(self.token)(self.left.evaluate(variables, fill_length), self.right.evaluate(variables, fill_length)).astype(float))
    elif self.token.tag == TokenTag.numeric:
        return np.nan_to_num(np.asarray([self.token.value] * fill_length)).astype(float)
    elif self.token.tag == TokenTag.reference:
        return np.asarray(variables[self.token.value]).astype(float)
    else:
        return assert_never(self.token.tag)


@target("libecalc.expression.expression_tree.get_tree", props=["C06"])
def f_get_tree(postfix_tokens):
    stack = []
    for token in postfix_tokens:
        if token.tag == TokenTag.operator:
            try:
                right = stack.pop()
            except IndexError as e:
                raise ValueError()
            try:
                left = stack.pop()
            except IndexError as e:
                raise ValueError()
            new_node = Node(token, left, right)
            stack.append(new_node)
        else:
            stack.append(Node(token=token))
    if len(stack) != 1:
        raise ValueError()
    return stack.pop()


@target("libecalc.expression.extract_expressions._is_expression_type", props=["C06"])
def f_is_expression_type(annotation):
    if typing.get_origin(annotation) is typing.Annotated:
        return any((m is EXPRESSION_MARKER for m in typing.get_args(annotation)[1:]))
    return False


@target("libecalc.expression.extract_expressions._contains_expression_type", props=["C06"])
def f_contains_expression_type(annotation):
    if _is_expression_type(annotation):
        return True
    args = typing.get_args(annotation)
    if not args:
        return False
    return any((_contains_expression_type(arg) for arg in args))


@target("libecalc.expression.extract_expressions._is_pydantic_model", props=["C06"])
def f_is_pydantic_model(annotation):
    return isinstance(annotation, type) and issubclass(annotation, BaseModel)


@target("libecalc.expression.extract_expressions._unwrap_to_model_types", props=["C06"])
def f_unwrap_to_model_types(annotation):
    if _is_pydantic_model(annotation):
        return [annotation]
    origin = typing.get_origin(annotation)
    if origin is typing.Union or isinstance(annotation, types.UnionType):
        result = []
        for arg in typing.get_args(annotation):
            result.extend(_unwrap_to_model_types(arg))
        return result
    if origin is list:
        args = typing.get_args(annotation)
        return _unwrap_to_model_types(args[0]) if args else []
    if origin is typing.Annotated:
        return _unwrap_to_model_types(typing.get_args(annotation)[0])
    if origin is dict:
        args = typing.get_args(annotation)
        result = []
        for arg in args:
            result.extend(_unwrap_to_model_types(arg))
        return result
    return []


@target("libecalc.expression.extract_expressions._has_expression_marker", props=["C06"])
def f_has_expression_marker(metadata):
    return any((m is EXPRESSION_MARKER for m in metadata))


@target("libecalc.expression.extract_expressions._collect_expression_values", props=["C06"])
def f_collect_expression_values(model):
    values = []
    for field_name, field_info in type(model).model_fields.items():
        field_value = getattr(model, field_name, None)
        if field_value is None:
            continue
        annotation = field_info.annotation
        is_expression = _has_expression_marker(field_info.metadata) or _contains_expression_type(annotation)
        if is_expression:
            if isinstance(field_value, list):
                for item in field_value:
                    if isinstance(item, (str, int, float)):
                        values.append(item)
                    elif isinstance(item, BaseModel):
                        values.extend(_collect_expression_values(item))
            elif isinstance(field_value, dict):
                for v in field_value.values():
                    if isinstance(v, (str, int, float)):
                        values.append(v)
                    elif isinstance(v, BaseModel):
                        values.extend(_collect_expression_values(v))
                    elif isinstance(v, list):
                        for item in v:
                            if isinstance(item, (str, int, float)):
                                values.append(item)
                            elif isinstance(item, BaseModel):
                                values.extend(_collect_expression_values(item))
            elif isinstance(field_value, (str, int, float)):
                values.append(field_value)
        else:
            model_types = _unwrap_to_model_types(annotation)
            if model_types:
                if isinstance(field_value, BaseModel):
                    values.extend(_collect_expression_values(field_value))
                elif isinstance(field_value, list):
                    for item in field_value:
                        if isinstance(item, BaseModel):
                            values.extend(_collect_expression_values(item))
                elif isinstance(field_value, dict):
                    for v in field_value.values():
                        if isinstance(v, BaseModel):
                            values.extend(_collect_expression_values(v))
                        elif isinstance(v, list):
                            for item in v:
                                if isinstance(item, BaseModel):
                                    values.extend(_collect_expression_values(item))
    return values


@target("libecalc.expression.extract_expressions.extract_expression_references", props=["C06"])
def f_extract_expression_references(model):
    expression_values = _collect_expression_values(model)
    references = set()
    for expr_value in expression_values:
        expression = Expression.setup_from_expression(expr_value)
        references.update(expression.variables)
    return references


@target("libecalc.expression.temporal_expression.TemporalExpression.__init__", props=["C02", "C06"])
def TemporalExpression_init(self, expression, target_period, expression_evaluator):
    self.target_period = target_period
    self.expression = expression
    self.expression_evaluator = expression_evaluator
    self.model = self._normalize_expression()


@target("libecalc.expression.temporal_expression.TemporalExpression._normalize_expression", props=["C02", "C06"])
def TemporalExpression_normalize_expression(self):
    if isinstance(self.expression, dict):
        data = {period: Expression.setup_from_expression(value) for period, value in define_time_model_for_period(self.expression, self.target_period).items()}
    elif self.expression is not None:
        data = define_time_model_for_period(Expression.setup_from_expression(self.expression), target_period=self.target_period)
    else:
        raise ValueError()
    return TemporalModel(data)


@target("libecalc.expression.temporal_expression.TemporalExpression.evaluate", props=["C02", "C06"])
def TemporalExpression_evaluate(self):
    return self.expression_evaluator.evaluate(self.model).tolist()


@target("libecalc.presentation.yaml.domain.time_series_expression.TimeSeriesExpression.__init__", props=["C06", "C08"])
def TimeSeriesExpression_init(self, expression, expression_evaluator, condition=None):
    self._original_expression = expression
    self._expression = convert_expression(expression)
    self.expression_evaluator = expression_evaluator
    self._condition = convert_expression(condition) if condition is not None else None


@target("libecalc.presentation.yaml.domain.time_series_expression.TimeSeriesExpression.get_expression", props=["C06", "C08"])
def TimeSeriesExpression_get_expression(self):
    return self._expression


@target("libecalc.presentation.yaml.domain.time_series_expression.TimeSeriesExpression.get_original_expression", props=["C06", "C08"])
def TimeSeriesExpression_get_original_expression(self):
    return self._original_expression


@target("libecalc.presentation.yaml.domain.time_series_expression.TimeSeriesExpression.get_evaluated_expression", props=["C06", "C08"])
def TimeSeriesExpression_get_evaluated_expression(self):
    if self._expression is None:
        return None
    values = self.expression_evaluator.evaluate(expression=self._expression)
    arr = np.array(values)
    if arr.shape[0] == 1:
        arr = np.atleast_1d(arr[0])
    return arr.tolist()


@target("libecalc.presentation.yaml.domain.time_series_expression.TimeSeriesExpression.get_masked_values", props=["C06", "C08"])
def TimeSeriesExpression_get_masked_values(self):
    values = np.asarray(self.get_evaluated_expression(), dtype=np.float64)
    mask = self.get_condition_mask()
    masked = mask.apply(values)
    return masked.tolist()


@target("libecalc.presentation.yaml.domain.time_series_expression.TimeSeriesExpression.get_condition_mask", props=["C06", "C08"])
def TimeSeriesExpression_get_condition_mask(self):
    mask = self.expression_evaluator.evaluate(expression=self._condition) if self._condition is not None else None
    return TimeSeriesMask.from_array(mask)


@target("libecalc.presentation.yaml.domain.time_series_expression.TimeSeriesExpression.get_periods", props=["C06", "C08"])
def TimeSeriesExpression_get_periods(self):
    return self.expression_evaluator.get_periods().periods
