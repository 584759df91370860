"""Frozen description of the object model (the oracle): see tools/gen_table.py.

CLASSES: name -> (module, extra policy, {python name: (document name, required, default, nullable, omitted when null, type)})
extra policy: "x" = only specification extensions, "any" = anything, "forbid" = nothing
CONTAINERS: name -> (module, type of the entries)
"""

CLASSES = {
    'AsyncAPI3': ('asyncapi3.models.asyncapi', 'x', {
        'asyncapi': ('asyncapi', False, '3.0.0', False, False, ('str',)),
        'id': ('id', False, None, True, True, ('url',)),
        'info': ('info', True, None, False, False, ('model', 'Info')),
        'servers': ('servers', False, None, True, True, ('model', 'Servers')),
        'default_content_type': ('defaultContentType', False, None, True, True, ('str',)),
        'channels': ('channels', False, None, True, True, ('model', 'Channels')),
        'operations': ('operations', False, None, True, True, ('model', 'Operations')),
        'components': ('components', False, None, True, True, ('model', 'Components')),
    }),
    'ExternalDocumentation': ('asyncapi3.models.base', 'x', {
        'url': ('url', True, None, False, False, ('url',)),
        'description': ('description', False, None, True, True, ('str',)),
    }),
    'Reference': ('asyncapi3.models.base', 'forbid', {
        'ref': ('$ref', True, None, False, False, ('str',)),
    }),
    'Tag': ('asyncapi3.models.base', 'x', {
        'name': ('name', True, None, False, False, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
    }),
    'AMQPChannelBindings': ('asyncapi3.models.bindings.amqp', 'forbid', {
        'is_': ('is', True, None, False, False, ('lit', ['queue', 'routingKey'])),
        'exchange': ('exchange', False, None, True, True, ('model', 'AMQPExchange')),
        'queue': ('queue', False, None, True, True, ('model', 'AMQPQueue')),
        'binding_version': ('bindingVersion', False, '0.3.0', False, False, ('str',)),
    }),
    'AMQPExchange': ('asyncapi3.models.bindings.amqp', 'forbid', {
        'name': ('name', True, None, False, False, ('str', 255)),
        'type': ('type', True, None, False, False, ('lit', ['topic', 'direct', 'fanout', 'default', 'headers'])),
        'durable': ('durable', False, None, True, True, ('bool',)),
        'auto_delete': ('autoDelete', False, None, True, True, ('bool',)),
        'vhost': ('vhost', False, None, True, True, ('str',)),
    }),
    'AMQPMessageBindings': ('asyncapi3.models.bindings.amqp', 'forbid', {
        'content_encoding': ('contentEncoding', False, None, True, True, ('str',)),
        'message_type': ('messageType', False, None, True, True, ('str',)),
        'binding_version': ('bindingVersion', False, '0.3.0', False, False, ('str',)),
    }),
    'AMQPOperationBindings': ('asyncapi3.models.bindings.amqp', 'forbid', {
        'expiration': ('expiration', False, None, True, True, ('int',)),
        'user_id': ('userId', False, None, True, True, ('str',)),
        'cc': ('cc', False, None, True, True, ('list', ('str',))),
        'priority': ('priority', False, None, True, True, ('int',)),
        'delivery_mode': ('deliveryMode', False, None, True, True, ('lit', [1, 2])),
        'mandatory': ('mandatory', False, None, True, True, ('bool',)),
        'bcc': ('bcc', False, None, True, True, ('list', ('str',))),
        'timestamp': ('timestamp', False, None, True, True, ('bool',)),
        'ack': ('ack', False, None, True, True, ('bool',)),
        'binding_version': ('bindingVersion', False, '0.3.0', False, False, ('str',)),
    }),
    'AMQPQueue': ('asyncapi3.models.bindings.amqp', 'forbid', {
        'name': ('name', False, None, True, True, ('str', 255)),
        'durable': ('durable', False, None, True, True, ('bool',)),
        'exclusive': ('exclusive', False, None, True, True, ('bool',)),
        'auto_delete': ('autoDelete', False, None, True, True, ('bool',)),
        'vhost': ('vhost', False, None, True, True, ('str',)),
    }),
    'AMQPServerBindings': ('asyncapi3.models.bindings.amqp', 'forbid', {
    }),
    'AMQP1ChannelBindings': ('asyncapi3.models.bindings.amqp1', 'forbid', {
    }),
    'AMQP1MessageBindings': ('asyncapi3.models.bindings.amqp1', 'forbid', {
    }),
    'AMQP1OperationBindings': ('asyncapi3.models.bindings.amqp1', 'forbid', {
    }),
    'AMQP1ServerBindings': ('asyncapi3.models.bindings.amqp1', 'forbid', {
    }),
    'AnypointMQChannelBindings': ('asyncapi3.models.bindings.anypointmq', 'forbid', {
        'destination': ('destination', False, None, True, True, ('str',)),
        'destination_type': ('destinationType', False, 'queue', True, True, ('lit', ['exchange', 'queue', 'fifo-queue'])),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'AnypointMQMessageBindings': ('asyncapi3.models.bindings.anypointmq', 'forbid', {
        'headers': ('headers', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'AnypointMQOperationBindings': ('asyncapi3.models.bindings.anypointmq', 'forbid', {
    }),
    'AnypointMQServerBindings': ('asyncapi3.models.bindings.anypointmq', 'forbid', {
    }),
    'ChannelBindingsObject': ('asyncapi3.models.bindings.core', 'x', {
        'http': ('http', False, None, True, True, ('model', 'HTTPChannelBindings')),
        'ws': ('ws', False, None, True, True, ('model', 'WebSocketsChannelBindings')),
        'kafka': ('kafka', False, None, True, True, ('model', 'KafkaChannelBindings')),
        'anypointmq': ('anypointmq', False, None, True, True, ('model', 'AnypointMQChannelBindings')),
        'amqp': ('amqp', False, None, True, True, ('model', 'AMQPChannelBindings')),
        'amqp1': ('amqp1', False, None, True, True, ('model', 'AMQP1ChannelBindings')),
        'mqtt': ('mqtt', False, None, True, True, ('model', 'MQTTChannelBindings')),
        'mqtt5': ('mqtt5', False, None, True, True, ('model', 'MQTT5ChannelBindings')),
        'nats': ('nats', False, None, True, True, ('model', 'NATSChannelBindings')),
        'jms': ('jms', False, None, True, True, ('model', 'JMSChannelBindings')),
        'sns': ('sns', False, None, True, True, ('model', 'SNSChannelBindings')),
        'solace': ('solace', False, None, True, True, ('model', 'SolaceChannelBindings')),
        'sqs': ('sqs', False, None, True, True, ('model', 'SQSChannelBindings')),
        'stomp': ('stomp', False, None, True, True, ('model', 'STOMPChannelBindings')),
        'redis': ('redis', False, None, True, True, ('model', 'RedisChannelBindings')),
        'mercure': ('mercure', False, None, True, True, ('model', 'MercureChannelBindings')),
        'ibmmq': ('ibmmq', False, None, True, True, ('model', 'IBMMQChannelBindings')),
        'googlepubsub': ('googlepubsub', False, None, True, True, ('model', 'GooglePubSubChannelBindings')),
        'pulsar': ('pulsar', False, None, True, True, ('model', 'PulsarChannelBindings')),
    }),
    'MessageBindingsObject': ('asyncapi3.models.bindings.core', 'x', {
        'http': ('http', False, None, True, True, ('model', 'HTTPMessageBindings')),
        'ws': ('ws', False, None, True, True, ('model', 'WebSocketsMessageBindings')),
        'kafka': ('kafka', False, None, True, True, ('model', 'KafkaMessageBindings')),
        'anypointmq': ('anypointmq', False, None, True, True, ('model', 'AnypointMQMessageBindings')),
        'amqp': ('amqp', False, None, True, True, ('model', 'AMQPMessageBindings')),
        'amqp1': ('amqp1', False, None, True, True, ('model', 'AMQP1MessageBindings')),
        'mqtt': ('mqtt', False, None, True, True, ('model', 'MQTTMessageBindings')),
        'mqtt5': ('mqtt5', False, None, True, True, ('model', 'MQTT5MessageBindings')),
        'nats': ('nats', False, None, True, True, ('model', 'NATSMessageBindings')),
        'jms': ('jms', False, None, True, True, ('model', 'JMSMessageBindings')),
        'sns': ('sns', False, None, True, True, ('model', 'SNSMessageBindings')),
        'solace': ('solace', False, None, True, True, ('model', 'SolaceMessageBindings')),
        'sqs': ('sqs', False, None, True, True, ('model', 'SQSMessageBindings')),
        'stomp': ('stomp', False, None, True, True, ('model', 'STOMPMessageBindings')),
        'redis': ('redis', False, None, True, True, ('model', 'RedisMessageBindings')),
        'mercure': ('mercure', False, None, True, True, ('model', 'MercureMessageBindings')),
        'ibmmq': ('ibmmq', False, None, True, True, ('model', 'IBMMQMessageBindings')),
        'googlepubsub': ('googlepubsub', False, None, True, True, ('model', 'GooglePubSubMessageBindings')),
        'pulsar': ('pulsar', False, None, True, True, ('model', 'PulsarMessageBindings')),
    }),
    'OperationBindingsObject': ('asyncapi3.models.bindings.core', 'x', {
        'http': ('http', False, None, True, True, ('model', 'HTTPOperationBindings')),
        'ws': ('ws', False, None, True, True, ('model', 'WebSocketsOperationBindings')),
        'kafka': ('kafka', False, None, True, True, ('model', 'KafkaOperationBindings')),
        'anypointmq': ('anypointmq', False, None, True, True, ('model', 'AnypointMQOperationBindings')),
        'amqp': ('amqp', False, None, True, True, ('model', 'AMQPOperationBindings')),
        'amqp1': ('amqp1', False, None, True, True, ('model', 'AMQP1OperationBindings')),
        'mqtt': ('mqtt', False, None, True, True, ('model', 'MQTTOperationBindings')),
        'mqtt5': ('mqtt5', False, None, True, True, ('model', 'MQTT5OperationBindings')),
        'nats': ('nats', False, None, True, True, ('model', 'NATSOperationBindings')),
        'jms': ('jms', False, None, True, True, ('model', 'JMSOperationBindings')),
        'sns': ('sns', False, None, True, True, ('model', 'SNSOperationBindings')),
        'solace': ('solace', False, None, True, True, ('model', 'SolaceOperationBindings')),
        'sqs': ('sqs', False, None, True, True, ('model', 'SQSOperationBindings')),
        'stomp': ('stomp', False, None, True, True, ('model', 'STOMPOperationBindings')),
        'redis': ('redis', False, None, True, True, ('model', 'RedisOperationBindings')),
        'mercure': ('mercure', False, None, True, True, ('model', 'MercureOperationBindings')),
        'ibmmq': ('ibmmq', False, None, True, True, ('model', 'IBMMQOperationBindings')),
        'googlepubsub': ('googlepubsub', False, None, True, True, ('model', 'GooglePubSubOperationBindings')),
        'pulsar': ('pulsar', False, None, True, True, ('model', 'PulsarOperationBindings')),
    }),
    'ServerBindingsObject': ('asyncapi3.models.bindings.core', 'x', {
        'http': ('http', False, None, True, True, ('model', 'HTTPServerBindings')),
        'ws': ('ws', False, None, True, True, ('model', 'WebSocketsServerBindings')),
        'kafka': ('kafka', False, None, True, True, ('model', 'KafkaServerBindings')),
        'anypointmq': ('anypointmq', False, None, True, True, ('model', 'AnypointMQServerBindings')),
        'amqp': ('amqp', False, None, True, True, ('model', 'AMQPServerBindings')),
        'amqp1': ('amqp1', False, None, True, True, ('model', 'AMQP1ServerBindings')),
        'mqtt': ('mqtt', False, None, True, True, ('model', 'MQTTServerBindings')),
        'mqtt5': ('mqtt5', False, None, True, True, ('model', 'MQTT5ServerBindings')),
        'nats': ('nats', False, None, True, True, ('model', 'NATSServerBindings')),
        'jms': ('jms', False, None, True, True, ('model', 'JMSServerBindings')),
        'sns': ('sns', False, None, True, True, ('model', 'SNSServerBindings')),
        'solace': ('solace', False, None, True, True, ('model', 'SolaceServerBindings')),
        'sqs': ('sqs', False, None, True, True, ('model', 'SQSServerBindings')),
        'stomp': ('stomp', False, None, True, True, ('model', 'STOMPServerBindings')),
        'redis': ('redis', False, None, True, True, ('model', 'RedisServerBindings')),
        'mercure': ('mercure', False, None, True, True, ('model', 'MercureServerBindings')),
        'ibmmq': ('ibmmq', False, None, True, True, ('model', 'IBMMQServerBindings')),
        'googlepubsub': ('googlepubsub', False, None, True, True, ('model', 'GooglePubSubServerBindings')),
        'pulsar': ('pulsar', False, None, True, True, ('model', 'PulsarServerBindings')),
    }),
    'GooglePubSubChannelBindings': ('asyncapi3.models.bindings.googlepubsub', 'forbid', {
        'binding_version': ('bindingVersion', False, '0.2.0', False, False, ('str',)),
        'labels': ('labels', False, None, True, True, ('dict', ('any',))),
        'message_retention_duration': ('messageRetentionDuration', False, None, True, True, ('str',)),
        'message_storage_policy': ('messageStoragePolicy', False, None, True, True, ('model', 'GooglePubSubMessageStoragePolicy')),
        'schema_settings': ('schemaSettings', False, None, True, True, ('model', 'GooglePubSubSchemaSettings')),
    }),
    'GooglePubSubMessageBindings': ('asyncapi3.models.bindings.googlepubsub', 'forbid', {
        'binding_version': ('bindingVersion', False, '0.2.0', False, False, ('str',)),
        'attributes': ('attributes', False, None, True, True, ('dict', ('any',))),
        'ordering_key': ('orderingKey', False, None, True, True, ('str',)),
        'schema': ('schema', False, None, True, True, ('model', 'GooglePubSubSchemaDefinition')),
    }),
    'GooglePubSubMessageStoragePolicy': ('asyncapi3.models.bindings.googlepubsub', 'forbid', {
        'allowed_persistence_regions': ('allowedPersistenceRegions', False, None, True, True, ('list', ('str',))),
    }),
    'GooglePubSubOperationBindings': ('asyncapi3.models.bindings.googlepubsub', 'forbid', {
    }),
    'GooglePubSubSchemaDefinition': ('asyncapi3.models.bindings.googlepubsub', 'forbid', {
        'name': ('name', False, None, True, True, ('str',)),
    }),
    'GooglePubSubSchemaSettings': ('asyncapi3.models.bindings.googlepubsub', 'forbid', {
        'encoding': ('encoding', False, None, True, True, ('lit', ['ENCODING_UNSPECIFIED', 'JSON', 'BINARY'])),
        'first_revision_id': ('firstRevisionId', False, None, True, True, ('str',)),
        'last_revision_id': ('lastRevisionId', False, None, True, True, ('str',)),
        'name': ('name', False, None, True, True, ('str',)),
    }),
    'GooglePubSubServerBindings': ('asyncapi3.models.bindings.googlepubsub', 'forbid', {
    }),
    'HTTPChannelBindings': ('asyncapi3.models.bindings.http', 'forbid', {
    }),
    'HTTPMessageBindings': ('asyncapi3.models.bindings.http', 'forbid', {
        'headers': ('headers', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'status_code': ('statusCode', False, None, True, True, ('int',)),
        'binding_version': ('bindingVersion', False, '0.3.0', False, False, ('str',)),
    }),
    'HTTPOperationBindings': ('asyncapi3.models.bindings.http', 'forbid', {
        'method': ('method', True, None, False, False, ('lit', ['GET', 'POST', 'PUT', 'PATCH', 'DELETE', 'HEAD', 'OPTIONS', 'CONNECT', 'TRACE'])),
        'query': ('query', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.3.0', False, False, ('str',)),
    }),
    'HTTPServerBindings': ('asyncapi3.models.bindings.http', 'forbid', {
    }),
    'IBMMQChannelBindings': ('asyncapi3.models.bindings.ibmmq', 'forbid', {
        'destination_type': ('destinationType', False, 'topic', False, False, ('lit', ['topic', 'queue'])),
        'queue': ('queue', False, None, True, True, ('model', 'IBMMQQueue')),
        'topic': ('topic', False, None, True, True, ('model', 'IBMMQTopic')),
        'max_msg_length': ('maxMsgLength', False, None, True, True, ('int',)),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'IBMMQMessageBindings': ('asyncapi3.models.bindings.ibmmq', 'forbid', {
        'type': ('type', False, 'string', False, False, ('lit', ['string', 'jms', 'binary'])),
        'headers': ('headers', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'expiry': ('expiry', False, None, True, True, ('int',)),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'IBMMQOperationBindings': ('asyncapi3.models.bindings.ibmmq', 'forbid', {
    }),
    'IBMMQQueue': ('asyncapi3.models.bindings.ibmmq', 'forbid', {
        'object_name': ('objectName', True, None, False, False, ('str', 48)),
        'is_partitioned': ('isPartitioned', False, False, False, False, ('bool',)),
        'exclusive': ('exclusive', False, False, False, False, ('bool',)),
    }),
    'IBMMQServerBindings': ('asyncapi3.models.bindings.ibmmq', 'forbid', {
        'group_id': ('groupId', False, None, True, True, ('str',)),
        'ccdt_queue_manager_name': ('ccdtQueueManagerName', False, None, True, True, ('str',)),
        'cipher_spec': ('cipherSpec', False, None, True, True, ('str',)),
        'multi_endpoint_server': ('multiEndpointServer', False, None, True, True, ('bool',)),
        'heart_beat_interval': ('heartBeatInterval', False, None, True, True, ('int',)),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'IBMMQTopic': ('asyncapi3.models.bindings.ibmmq', 'forbid', {
        'string': ('string', False, None, True, True, ('str', 10240)),
        'object_name': ('objectName', False, None, True, True, ('str', 48)),
        'durable_permitted': ('durablePermitted', False, True, False, False, ('bool',)),
        'last_msg_retained': ('lastMsgRetained', False, False, False, False, ('bool',)),
    }),
    'JMSChannelBindings': ('asyncapi3.models.bindings.jms', 'forbid', {
        'destination': ('destination', False, None, True, True, ('str',)),
        'destination_type': ('destinationType', False, None, True, True, ('lit', ['queue', 'fifo-queue'])),
        'binding_version': ('bindingVersion', False, '0.0.1', False, False, ('str',)),
    }),
    'JMSMessageBindings': ('asyncapi3.models.bindings.jms', 'forbid', {
        'headers': ('headers', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.0.1', False, False, ('str',)),
    }),
    'JMSOperationBindings': ('asyncapi3.models.bindings.jms', 'forbid', {
    }),
    'JMSServerBindings': ('asyncapi3.models.bindings.jms', 'forbid', {
        'jms_connection_factory': ('jmsConnectionFactory', True, None, False, False, ('str',)),
        'properties': ('properties', False, None, True, True, ('list', ('model', 'Schema'))),
        'client_id': ('clientID', False, None, True, True, ('str',)),
        'binding_version': ('bindingVersion', False, '0.0.1', False, False, ('str',)),
    }),
    'KafkaChannelBindings': ('asyncapi3.models.bindings.kafka', 'forbid', {
        'topic': ('topic', False, None, True, True, ('str',)),
        'partitions': ('partitions', False, None, True, True, ('int',)),
        'replicas': ('replicas', False, None, True, True, ('int',)),
        'topic_configuration': ('topicConfiguration', False, None, True, True, ('model', 'KafkaTopicConfiguration')),
        'binding_version': ('bindingVersion', False, '0.5.0', False, False, ('str',)),
    }),
    'KafkaMessageBindings': ('asyncapi3.models.bindings.kafka', 'forbid', {
        'key': ('key', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference'), ('dict', ('any',))])),
        'schema_id_location': ('schemaIdLocation', False, None, True, True, ('str',)),
        'schema_id_payload_encoding': ('schemaIdPayloadEncoding', False, None, True, True, ('str',)),
        'schema_lookup_strategy': ('schemaLookupStrategy', False, None, True, True, ('str',)),
        'binding_version': ('bindingVersion', False, '0.5.0', False, False, ('str',)),
    }),
    'KafkaOperationBindings': ('asyncapi3.models.bindings.kafka', 'forbid', {
        'group_id': ('groupId', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'client_id': ('clientId', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.5.0', False, False, ('str',)),
    }),
    'KafkaServerBindings': ('asyncapi3.models.bindings.kafka', 'forbid', {
        'schema_registry_url': ('schemaRegistryUrl', False, None, True, True, ('str',)),
        'schema_registry_vendor': ('schemaRegistryVendor', False, None, True, True, ('str',)),
        'binding_version': ('bindingVersion', False, '0.5.0', False, False, ('str',)),
    }),
    'KafkaTopicConfiguration': ('asyncapi3.models.bindings.kafka', 'any', {
        'cleanup_policy': ('cleanup.policy', False, None, True, True, ('list', ('lit', ['delete', 'compact']))),
        'retention_ms': ('retention.ms', False, None, True, True, ('int',)),
        'retention_bytes': ('retention.bytes', False, None, True, True, ('int',)),
        'delete_retention_ms': ('delete.retention.ms', False, None, True, True, ('int',)),
        'max_message_bytes': ('max.message.bytes', False, None, True, True, ('int',)),
        'confluent_key_schema_validation': ('confluent.key.schema.validation', False, None, True, True, ('bool',)),
        'confluent_key_subject_name_strategy': ('confluent.key.subject.name.strategy', False, None, True, True, ('str',)),
        'confluent_value_schema_validation': ('confluent.value.schema.validation', False, None, True, True, ('bool',)),
        'confluent_value_subject_name_strategy': ('confluent.value.subject.name.strategy', False, None, True, True, ('str',)),
    }),
    'MercureChannelBindings': ('asyncapi3.models.bindings.mercure', 'forbid', {
    }),
    'MercureMessageBindings': ('asyncapi3.models.bindings.mercure', 'forbid', {
    }),
    'MercureOperationBindings': ('asyncapi3.models.bindings.mercure', 'forbid', {
    }),
    'MercureServerBindings': ('asyncapi3.models.bindings.mercure', 'forbid', {
    }),
    'MQTTChannelBindings': ('asyncapi3.models.bindings.mqtt', 'forbid', {
    }),
    'MQTTLastWill': ('asyncapi3.models.bindings.mqtt', 'forbid', {
        'topic': ('topic', True, None, False, False, ('str',)),
        'qos': ('qos', True, None, False, False, ('lit', [0, 1, 2])),
        'message': ('message', True, None, False, False, ('str',)),
        'retain': ('retain', True, None, False, False, ('bool',)),
    }),
    'MQTTMessageBindings': ('asyncapi3.models.bindings.mqtt', 'forbid', {
        'payload_format_indicator': ('payloadFormatIndicator', False, None, True, True, ('lit', [0, 1])),
        'correlation_data': ('correlationData', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'content_type': ('contentType', False, None, True, True, ('str',)),
        'response_topic': ('responseTopic', False, None, True, True, ('union', [('str',), ('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.2.0', False, False, ('str',)),
    }),
    'MQTTOperationBindings': ('asyncapi3.models.bindings.mqtt', 'forbid', {
        'qos': ('qos', False, None, True, True, ('lit', [0, 1, 2])),
        'retain': ('retain', False, None, True, True, ('bool',)),
        'message_expiry_interval': ('messageExpiryInterval', False, None, True, True, ('union', [('int',), ('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.2.0', False, False, ('str',)),
    }),
    'MQTTServerBindings': ('asyncapi3.models.bindings.mqtt', 'forbid', {
        'client_id': ('clientId', False, None, True, True, ('str',)),
        'clean_session': ('cleanSession', False, None, True, True, ('bool',)),
        'last_will': ('lastWill', False, None, True, True, ('model', 'MQTTLastWill')),
        'keep_alive': ('keepAlive', False, None, True, True, ('int',)),
        'session_expiry_interval': ('sessionExpiryInterval', False, None, True, True, ('union', [('int',), ('model', 'Schema'), ('model', 'Reference')])),
        'maximum_packet_size': ('maximumPacketSize', False, None, True, True, ('union', [('int',), ('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.2.0', False, False, ('str',)),
    }),
    'MQTT5ChannelBindings': ('asyncapi3.models.bindings.mqtt5', 'forbid', {
    }),
    'MQTT5MessageBindings': ('asyncapi3.models.bindings.mqtt5', 'forbid', {
    }),
    'MQTT5OperationBindings': ('asyncapi3.models.bindings.mqtt5', 'forbid', {
    }),
    'MQTT5ServerBindings': ('asyncapi3.models.bindings.mqtt5', 'forbid', {
        'session_expiry_interval': ('sessionExpiryInterval', False, None, True, True, ('union', [('int',), ('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.2.0', False, False, ('str',)),
    }),
    'NATSChannelBindings': ('asyncapi3.models.bindings.nats', 'forbid', {
    }),
    'NATSMessageBindings': ('asyncapi3.models.bindings.nats', 'forbid', {
    }),
    'NATSOperationBindings': ('asyncapi3.models.bindings.nats', 'forbid', {
        'queue': ('queue', False, None, True, True, ('str', 255)),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'NATSServerBindings': ('asyncapi3.models.bindings.nats', 'forbid', {
    }),
    'PulsarChannelBindings': ('asyncapi3.models.bindings.pulsar', 'forbid', {
        'namespace': ('namespace', True, None, False, False, ('str',)),
        'persistence': ('persistence', True, None, False, False, ('lit', ['persistent', 'non-persistent'])),
        'compaction': ('compaction', False, None, True, True, ('int',)),
        'geo_replication': ('geo-replication', False, None, True, True, ('list', ('str',))),
        'retention': ('retention', False, None, True, True, ('model', 'PulsarRetention')),
        'ttl': ('ttl', False, None, True, True, ('int',)),
        'deduplication': ('deduplication', False, None, True, True, ('bool',)),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'PulsarMessageBindings': ('asyncapi3.models.bindings.pulsar', 'forbid', {
    }),
    'PulsarOperationBindings': ('asyncapi3.models.bindings.pulsar', 'forbid', {
    }),
    'PulsarRetention': ('asyncapi3.models.bindings.pulsar', 'forbid', {
        'time': ('time', False, 0, True, True, ('int',)),
        'size': ('size', False, 0, True, True, ('int',)),
    }),
    'PulsarServerBindings': ('asyncapi3.models.bindings.pulsar', 'forbid', {
        'tenant': ('tenant', False, 'public', False, False, ('str',)),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'RedisChannelBindings': ('asyncapi3.models.bindings.redis', 'forbid', {
    }),
    'RedisMessageBindings': ('asyncapi3.models.bindings.redis', 'forbid', {
    }),
    'RedisOperationBindings': ('asyncapi3.models.bindings.redis', 'forbid', {
    }),
    'RedisServerBindings': ('asyncapi3.models.bindings.redis', 'forbid', {
    }),
    'SNSChannelBindings': ('asyncapi3.models.bindings.sns', 'forbid', {
        'name': ('name', True, None, False, False, ('str',)),
        'ordering': ('ordering', False, None, True, True, ('model', 'SNSOrdering')),
        'policy': ('policy', False, None, True, True, ('model', 'SNSPolicy')),
        'tags': ('tags', False, None, True, True, ('dict', ('any',))),
        'binding_version': ('bindingVersion', False, '1.0.0', False, False, ('str',)),
    }),
    'SNSConsumer': ('asyncapi3.models.bindings.sns', 'forbid', {
        'protocol': ('protocol', True, None, False, False, ('lit', ['http', 'https', 'email', 'email-json', 'sms', 'sqs', 'application', 'lambda', 'firehose'])),
        'endpoint': ('endpoint', True, None, False, False, ('model', 'SNSIdentifier')),
        'filter_policy': ('filterPolicy', False, None, True, True, ('dict', ('any',))),
        'filter_policy_scope': ('filterPolicyScope', False, None, True, True, ('lit', ['MessageAttributes', 'MessageBody'])),
        'raw_message_delivery': ('rawMessageDelivery', True, None, False, False, ('bool',)),
        'redrive_policy': ('redrivePolicy', False, None, True, True, ('model', 'SNSRedrivePolicy')),
        'delivery_policy': ('deliveryPolicy', False, None, True, True, ('model', 'SNSDeliveryPolicy')),
        'display_name': ('displayName', False, None, True, True, ('str',)),
    }),
    'SNSDeliveryPolicy': ('asyncapi3.models.bindings.sns', 'forbid', {
        'min_delay_target': ('minDelayTarget', False, None, True, True, ('int',)),
        'max_delay_target': ('maxDelayTarget', False, None, True, True, ('int',)),
        'num_retries': ('numRetries', False, None, True, True, ('int',)),
        'num_no_delay_retries': ('numNoDelayRetries', False, None, True, True, ('int',)),
        'num_min_delay_retries': ('numMinDelayRetries', False, None, True, True, ('int',)),
        'num_max_delay_retries': ('numMaxDelayRetries', False, None, True, True, ('int',)),
        'backoff_function': ('backoffFunction', False, None, True, True, ('lit', ['arithmetic', 'exponential', 'geometric', 'linear'])),
        'max_receives_per_second': ('maxReceivesPerSecond', False, None, True, True, ('int',)),
    }),
    'SNSIdentifier': ('asyncapi3.models.bindings.sns', 'forbid', {
        'url': ('url', False, None, True, True, ('str',)),
        'email': ('email', False, None, True, True, ('str',)),
        'phone': ('phone', False, None, True, True, ('str',)),
        'arn': ('arn', False, None, True, True, ('str',)),
        'name': ('name', False, None, True, True, ('str',)),
    }),
    'SNSMessageBindings': ('asyncapi3.models.bindings.sns', 'forbid', {
    }),
    'SNSOperationBindings': ('asyncapi3.models.bindings.sns', 'forbid', {
        'topic': ('topic', False, None, True, True, ('model', 'SNSIdentifier')),
        'consumers': ('consumers', True, None, False, False, ('list', ('model', 'SNSConsumer'))),
        'delivery_policy': ('deliveryPolicy', False, None, True, True, ('model', 'SNSDeliveryPolicy')),
        'binding_version': ('bindingVersion', False, '1.0.0', False, False, ('str',)),
    }),
    'SNSOrdering': ('asyncapi3.models.bindings.sns', 'forbid', {
        'type': ('type', True, None, False, False, ('lit', ['standard', 'FIFO'])),
        'content_based_deduplication': ('contentBasedDeduplication', False, False, False, False, ('bool',)),
    }),
    'SNSPolicy': ('asyncapi3.models.bindings.sns', 'forbid', {
        'statements': ('statements', True, None, False, False, ('list', ('model', 'SNSStatement'))),
    }),
    'SNSRedrivePolicy': ('asyncapi3.models.bindings.sns', 'forbid', {
        'dead_letter_queue': ('deadLetterQueue', True, None, False, False, ('model', 'SNSIdentifier')),
        'max_receive_count': ('maxReceiveCount', False, None, True, True, ('int',)),
    }),
    'SNSServerBindings': ('asyncapi3.models.bindings.sns', 'forbid', {
    }),
    'SNSStatement': ('asyncapi3.models.bindings.sns', 'forbid', {
        'effect': ('effect', True, None, False, False, ('lit', ['Allow', 'Deny'])),
        'principal': ('principal', True, None, False, False, ('union', [('str',), ('dict', ('union', [('str',), ('list', ('str',))]))])),
        'action': ('action', True, None, False, False, ('union', [('str',), ('list', ('str',))])),
        'resource': ('resource', False, None, True, True, ('union', [('str',), ('list', ('str',))])),
        'condition': ('condition', False, None, True, True, ('union', [('dict', ('any',)), ('list', ('dict', ('any',)))])),
    }),
    'SolaceChannelBindings': ('asyncapi3.models.bindings.solace', 'forbid', {
    }),
    'SolaceDestination': ('asyncapi3.models.bindings.solace', 'forbid', {
        'binding_version': ('bindingVersion', False, '0.4.0', False, False, ('str',)),
        'destination_type': ('destinationType', True, None, False, False, ('lit', ['queue', 'topic'])),
        'delivery_mode': ('deliveryMode', False, 'persistent', False, False, ('lit', ['direct', 'persistent'])),
        'queue': ('queue', False, None, True, True, ('model', 'SolaceQueue')),
        'topic': ('topic', False, None, True, True, ('model', 'SolaceTopic')),
    }),
    'SolaceMessageBindings': ('asyncapi3.models.bindings.solace', 'forbid', {
    }),
    'SolaceOperationBindings': ('asyncapi3.models.bindings.solace', 'forbid', {
        'binding_version': ('bindingVersion', False, '0.4.0', False, False, ('str',)),
        'destinations': ('destinations', False, None, True, True, ('list', ('model', 'SolaceDestination'))),
        'time_to_live': ('timeToLive', False, None, True, True, ('union', [('int',), ('model', 'Schema'), ('model', 'Reference')])),
        'priority': ('priority', False, None, True, True, ('union', [('int',), ('model', 'Schema'), ('model', 'Reference')])),
        'dmq_eligible': ('dmqEligible', False, None, True, True, ('bool',)),
    }),
    'SolaceQueue': ('asyncapi3.models.bindings.solace', 'forbid', {
        'name': ('name', False, None, True, True, ('str',)),
        'topic_subscriptions': ('topicSubscriptions', False, None, True, True, ('list', ('str',))),
        'access_type': ('accessType', False, None, True, True, ('lit', ['exclusive', 'nonexclusive'])),
        'max_msg_spool_size': ('maxMsgSpoolSize', False, None, True, True, ('str',)),
        'max_ttl': ('maxTtl', False, None, True, True, ('str',)),
    }),
    'SolaceServerBindings': ('asyncapi3.models.bindings.solace', 'forbid', {
        'binding_version': ('bindingVersion', False, '0.4.0', False, False, ('str',)),
        'msg_vpn': ('msgVpn', False, None, True, True, ('str',)),
        'client_name': ('clientName', False, None, True, True, ('str', 160)),
    }),
    'SolaceTopic': ('asyncapi3.models.bindings.solace', 'forbid', {
        'topic_subscriptions': ('topicSubscriptions', False, None, True, True, ('list', ('str',))),
    }),
    'SQSChannelBindings': ('asyncapi3.models.bindings.sqs', 'forbid', {
        'queue': ('queue', True, None, False, False, ('model', 'SQSQueue')),
        'dead_letter_queue': ('deadLetterQueue', False, None, True, True, ('model', 'SQSQueue')),
        'binding_version': ('bindingVersion', False, '0.3.0', False, False, ('str',)),
    }),
    'SQSIdentifier': ('asyncapi3.models.bindings.sqs', 'forbid', {
        'arn': ('arn', False, None, True, True, ('str',)),
        'name': ('name', False, None, True, True, ('str',)),
    }),
    'SQSMessageBindings': ('asyncapi3.models.bindings.sqs', 'forbid', {
    }),
    'SQSOperationBindings': ('asyncapi3.models.bindings.sqs', 'forbid', {
        'queues': ('queues', True, None, False, False, ('list', ('model', 'SQSQueue'))),
        'binding_version': ('bindingVersion', False, '0.3.0', False, False, ('str',)),
    }),
    'SQSPolicy': ('asyncapi3.models.bindings.sqs', 'forbid', {
        'statements': ('Statements', True, None, False, False, ('list', ('model', 'SQSStatement'))),
    }),
    'SQSQueue': ('asyncapi3.models.bindings.sqs', 'forbid', {
        'name': ('name', True, None, False, False, ('str',)),
        'fifo_queue': ('fifoQueue', True, None, False, False, ('bool',)),
        'deduplication_scope': ('deduplicationScope', False, None, True, True, ('lit', ['messageGroup', 'queue'])),
        'fifo_throughput_limit': ('fifoThroughputLimit', False, None, True, True, ('lit', ['perQueue', 'perMessageGroupId'])),
        'delivery_delay': ('deliveryDelay', False, None, True, True, ('int',)),
        'visibility_timeout': ('visibilityTimeout', False, None, True, True, ('int',)),
        'receive_message_wait_time': ('receiveMessageWaitTime', False, None, True, True, ('int',)),
        'message_retention_period': ('messageRetentionPeriod', False, None, True, True, ('int',)),
        'redrive_policy': ('redrivePolicy', False, None, True, True, ('model', 'SQSRedrivePolicy')),
        'policy': ('policy', False, None, True, True, ('model', 'SQSPolicy')),
        'tags': ('tags', False, None, True, True, ('dict', ('any',))),
    }),
    'SQSRedrivePolicy': ('asyncapi3.models.bindings.sqs', 'forbid', {
        'dead_letter_queue': ('deadLetterQueue', True, None, False, False, ('model', 'SQSIdentifier')),
        'max_receive_count': ('maxReceiveCount', False, None, True, True, ('int',)),
    }),
    'SQSServerBindings': ('asyncapi3.models.bindings.sqs', 'forbid', {
    }),
    'SQSStatement': ('asyncapi3.models.bindings.sqs', 'forbid', {
        'effect': ('effect', True, None, False, False, ('lit', ['Allow', 'Deny'])),
        'principal': ('principal', True, None, False, False, ('union', [('str',), ('dict', ('union', [('str',), ('list', ('str',))]))])),
        'action': ('action', True, None, False, False, ('union', [('str',), ('list', ('str',))])),
        'resource': ('resource', False, None, True, True, ('union', [('str',), ('list', ('str',))])),
        'condition': ('condition', False, None, True, True, ('union', [('dict', ('any',)), ('list', ('dict', ('any',)))])),
    }),
    'STOMPChannelBindings': ('asyncapi3.models.bindings.stomp', 'forbid', {
    }),
    'STOMPMessageBindings': ('asyncapi3.models.bindings.stomp', 'forbid', {
    }),
    'STOMPOperationBindings': ('asyncapi3.models.bindings.stomp', 'forbid', {
    }),
    'STOMPServerBindings': ('asyncapi3.models.bindings.stomp', 'forbid', {
    }),
    'WebSocketsChannelBindings': ('asyncapi3.models.bindings.websockets', 'forbid', {
        'method': ('method', False, None, True, True, ('lit', ['GET', 'POST'])),
        'query': ('query', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'headers': ('headers', False, None, True, True, ('union', [('model', 'Schema'), ('model', 'Reference')])),
        'binding_version': ('bindingVersion', False, '0.1.0', False, False, ('str',)),
    }),
    'WebSocketsMessageBindings': ('asyncapi3.models.bindings.websockets', 'forbid', {
    }),
    'WebSocketsOperationBindings': ('asyncapi3.models.bindings.websockets', 'forbid', {
    }),
    'WebSocketsServerBindings': ('asyncapi3.models.bindings.websockets', 'forbid', {
    }),
    'Channel': ('asyncapi3.models.channel', 'x', {
        'address': ('address', False, None, True, False, ('str',)),
        'messages': ('messages', False, None, True, True, ('model', 'Messages')),
        'title': ('title', False, None, True, True, ('str',)),
        'summary': ('summary', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'servers': ('servers', False, None, True, True, ('list', ('model', 'Reference'))),
        'parameters': ('parameters', False, None, True, True, ('model', 'Parameters')),
        'tags': ('tags', False, None, True, True, ('list', ('union', [('model', 'Tag'), ('model', 'Reference')]))),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
        'bindings': ('bindings', False, None, True, True, ('union', [('model', 'ChannelBindingsObject'), ('model', 'Reference')])),
    }),
    'Parameter': ('asyncapi3.models.channel', 'x', {
        'enum': ('enum', False, None, True, True, ('list', ('str',))),
        'default': ('default', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'examples': ('examples', False, None, True, True, ('list', ('str',))),
        'location': ('location', False, None, True, True, ('str',)),
    }),
    'Components': ('asyncapi3.models.components', 'x', {
        'schemas': ('schemas', False, None, True, True, ('model', 'Schemas')),
        'servers': ('servers', False, None, True, True, ('model', 'Servers')),
        'channels': ('channels', False, None, True, True, ('model', 'Channels')),
        'operations': ('operations', False, None, True, True, ('model', 'Operations')),
        'messages': ('messages', False, None, True, True, ('model', 'Messages')),
        'security_schemes': ('securitySchemes', False, None, True, True, ('model', 'SecuritySchemes')),
        'server_variables': ('serverVariables', False, None, True, True, ('model', 'ServerVariables')),
        'parameters': ('parameters', False, None, True, True, ('model', 'Parameters')),
        'correlation_ids': ('correlationIds', False, None, True, True, ('model', 'CorrelationIDs')),
        'replies': ('replies', False, None, True, True, ('model', 'Replies')),
        'reply_addresses': ('replyAddresses', False, None, True, True, ('model', 'ReplyAddresses')),
        'external_docs': ('externalDocs', False, None, True, True, ('model', 'ExternalDocs')),
        'tags': ('tags', False, None, True, True, ('model', 'Tags')),
        'operation_traits': ('operationTraits', False, None, True, True, ('model', 'OperationTraits')),
        'message_traits': ('messageTraits', False, None, True, True, ('model', 'MessageTraits')),
        'server_bindings': ('serverBindings', False, None, True, True, ('model', 'ServerBindings')),
        'channel_bindings': ('channelBindings', False, None, True, True, ('model', 'ChannelBindings')),
        'operation_bindings': ('operationBindings', False, None, True, True, ('model', 'OperationBindings')),
        'message_bindings': ('messageBindings', False, None, True, True, ('model', 'MessageBindings')),
    }),
    'Contact': ('asyncapi3.models.info', 'x', {
        'name': ('name', False, None, True, True, ('str',)),
        'url': ('url', False, None, True, True, ('httpurl',)),
        'email': ('email', False, None, True, True, ('email',)),
    }),
    'Info': ('asyncapi3.models.info', 'x', {
        'title': ('title', True, None, False, False, ('str',)),
        'version': ('version', True, None, False, False, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'terms_of_service': ('termsOfService', False, None, True, True, ('httpurl',)),
        'contact': ('contact', False, None, True, True, ('model', 'Contact')),
        'license': ('license', False, None, True, True, ('model', 'License')),
        'tags': ('tags', False, None, True, True, ('list', ('union', [('model', 'Tag'), ('model', 'Reference')]))),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
    }),
    'License': ('asyncapi3.models.info', 'x', {
        'name': ('name', True, None, False, False, ('str',)),
        'url': ('url', False, None, True, True, ('httpurl',)),
    }),
    'Message': ('asyncapi3.models.message', 'x', {
        'headers': ('headers', False, None, True, True, ('union', [('model', 'MultiFormatSchema'), ('model', 'Schema'), ('model', 'Reference')])),
        'payload': ('payload', False, None, True, True, ('union', [('model', 'MultiFormatSchema'), ('model', 'Schema'), ('model', 'Reference')])),
        'correlation_id': ('correlationId', False, None, True, True, ('union', [('model', 'CorrelationID'), ('model', 'Reference')])),
        'content_type': ('contentType', False, None, True, True, ('str',)),
        'name': ('name', False, None, True, True, ('str',)),
        'title': ('title', False, None, True, True, ('str',)),
        'summary': ('summary', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'tags': ('tags', False, None, True, True, ('list', ('union', [('model', 'Tag'), ('model', 'Reference')]))),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
        'bindings': ('bindings', False, None, True, True, ('union', [('model', 'MessageBindingsObject'), ('model', 'Reference')])),
        'examples': ('examples', False, None, True, True, ('list', ('model', 'MessageExample'))),
        'traits': ('traits', False, None, True, True, ('list', ('union', [('model', 'MessageTrait'), ('model', 'Reference')]))),
    }),
    'MessageExample': ('asyncapi3.models.message', 'x', {
        'headers': ('headers', False, None, True, True, ('dict', ('any',))),
        'payload': ('payload', False, None, True, True, ('any',)),
        'name': ('name', False, None, True, True, ('str',)),
        'summary': ('summary', False, None, True, True, ('str',)),
    }),
    'MessageTrait': ('asyncapi3.models.message', 'x', {
        'headers': ('headers', False, None, True, True, ('union', [('model', 'MultiFormatSchema'), ('model', 'Schema'), ('model', 'Reference')])),
        'correlation_id': ('correlationId', False, None, True, True, ('union', [('model', 'CorrelationID'), ('model', 'Reference')])),
        'content_type': ('contentType', False, None, True, True, ('str',)),
        'name': ('name', False, None, True, True, ('str',)),
        'title': ('title', False, None, True, True, ('str',)),
        'summary': ('summary', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'tags': ('tags', False, None, True, True, ('list', ('union', [('model', 'Tag'), ('model', 'Reference')]))),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
        'bindings': ('bindings', False, None, True, True, ('union', [('model', 'MessageBindingsObject'), ('model', 'Reference')])),
        'examples': ('examples', False, None, True, True, ('list', ('model', 'MessageExample'))),
    }),
    'Operation': ('asyncapi3.models.operation', 'x', {
        'action': ('action', True, None, False, False, ('lit', ['send', 'receive'])),
        'channel': ('channel', True, None, False, False, ('model', 'Reference')),
        'title': ('title', False, None, True, True, ('str',)),
        'summary': ('summary', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'security': ('security', False, None, True, True, ('list', ('union', [('model', 'SecurityScheme'), ('model', 'Reference')]))),
        'tags': ('tags', False, None, True, True, ('list', ('union', [('model', 'Tag'), ('model', 'Reference')]))),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
        'bindings': ('bindings', False, None, True, True, ('union', [('model', 'OperationBindingsObject'), ('model', 'Reference')])),
        'traits': ('traits', False, None, True, True, ('list', ('union', [('model', 'OperationTrait'), ('model', 'Reference')]))),
        'messages': ('messages', False, None, True, True, ('list', ('model', 'Reference'))),
        'reply': ('reply', False, None, True, True, ('union', [('model', 'OperationReply'), ('model', 'Reference')])),
    }),
    'OperationReply': ('asyncapi3.models.operation', 'x', {
        'address': ('address', False, None, True, True, ('union', [('model', 'OperationReplyAddress'), ('model', 'Reference')])),
        'channel': ('channel', False, None, True, True, ('model', 'Reference')),
        'messages': ('messages', False, None, True, True, ('list', ('model', 'Reference'))),
    }),
    'OperationReplyAddress': ('asyncapi3.models.operation', 'x', {
        'location': ('location', True, None, False, False, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
    }),
    'OperationTrait': ('asyncapi3.models.operation', 'x', {
        'title': ('title', False, None, True, True, ('str',)),
        'summary': ('summary', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'security': ('security', False, None, True, True, ('list', ('union', [('model', 'SecurityScheme'), ('model', 'Reference')]))),
        'tags': ('tags', False, None, True, True, ('list', ('union', [('model', 'Tag'), ('model', 'Reference')]))),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
        'bindings': ('bindings', False, None, True, True, ('union', [('model', 'OperationBindingsObject'), ('model', 'Reference')])),
    }),
    'MultiFormatSchema': ('asyncapi3.models.schema', 'any', {
        'schema_format': ('schemaFormat', False, 'application/vnd.aai.asyncapi;version=3.0.0', False, False, ('str',)),
        'schema': ('schema', True, None, True, False, ('any',)),
    }),
    'Schema': ('asyncapi3.models.schema', 'any', {
        'discriminator': ('discriminator', False, None, True, True, ('str',)),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
        'deprecated': ('deprecated', False, None, True, True, ('bool',)),
    }),
    'CorrelationID': ('asyncapi3.models.security', 'x', {
        'description': ('description', False, None, True, True, ('str',)),
        'location': ('location', True, None, False, False, ('str',)),
    }),
    'OAuthFlow': ('asyncapi3.models.security', 'x', {
        'authorization_url': ('authorizationUrl', False, None, True, True, ('url',)),
        'token_url': ('tokenUrl', False, None, True, True, ('url',)),
        'refresh_url': ('refreshUrl', False, None, True, True, ('url',)),
        'available_scopes': ('availableScopes', True, None, False, False, ('dict', ('str',))),
    }),
    'OAuthFlows': ('asyncapi3.models.security', 'x', {
        'implicit': ('implicit', False, None, True, True, ('model', 'OAuthFlow')),
        'password': ('password', False, None, True, True, ('model', 'OAuthFlow')),
        'client_credentials': ('clientCredentials', False, None, True, True, ('model', 'OAuthFlow')),
        'authorization_code': ('authorizationCode', False, None, True, True, ('model', 'OAuthFlow')),
    }),
    'SecurityScheme': ('asyncapi3.models.security', 'x', {
        'type_': ('type', True, None, False, False, ('lit', ['apiKey', 'asymmetricEncryption', 'gssapi', 'http', 'httpApiKey', 'oauth2', 'openIdConnect', 'plain', 'scramSha256', 'scramSha512', 'symmetricEncryption', 'userPassword', 'X509'])),
        'description': ('description', False, None, True, True, ('str',)),
        'name': ('name', False, None, True, True, ('str',)),
        'in_': ('in', False, None, True, True, ('lit', ['user', 'password', 'query', 'header', 'cookie'])),
        'scheme': ('scheme', False, None, True, True, ('str',)),
        'bearer_format': ('bearerFormat', False, None, True, True, ('str',)),
        'flows': ('flows', False, None, True, True, ('model', 'OAuthFlows')),
        'open_id_connect_url': ('openIdConnectUrl', False, None, True, True, ('url',)),
        'scopes': ('scopes', False, None, True, True, ('list', ('str',))),
    }),
    'Server': ('asyncapi3.models.server', 'x', {
        'host': ('host', True, None, False, False, ('str',)),
        'protocol': ('protocol', True, None, False, False, ('str',)),
        'protocol_version': ('protocolVersion', False, None, True, True, ('str',)),
        'pathname': ('pathname', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'title': ('title', False, None, True, True, ('str',)),
        'summary': ('summary', False, None, True, True, ('str',)),
        'variables': ('variables', False, None, True, True, ('dict', ('union', [('model', 'ServerVariable'), ('model', 'Reference')]))),
        'security': ('security', False, None, True, True, ('list', ('union', [('model', 'SecurityScheme'), ('model', 'Reference')]))),
        'tags': ('tags', False, None, True, True, ('list', ('union', [('model', 'Tag'), ('model', 'Reference')]))),
        'external_docs': ('externalDocs', False, None, True, True, ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
        'bindings': ('bindings', False, None, True, True, ('union', [('model', 'ServerBindingsObject'), ('model', 'Reference')])),
    }),
    'ServerVariable': ('asyncapi3.models.server', 'x', {
        'enum': ('enum', False, None, True, True, ('list', ('str',))),
        'default': ('default', False, None, True, True, ('str',)),
        'description': ('description', False, None, True, True, ('str',)),
        'examples': ('examples', False, None, True, True, ('list', ('str',))),
    }),
}

CONTAINERS = {
    'Channels': ('asyncapi3.models.channel', ('union', [('model', 'Channel'), ('model', 'Reference')])),
    'Parameters': ('asyncapi3.models.channel', ('union', [('model', 'Parameter'), ('model', 'Reference')])),
    'ChannelBindings': ('asyncapi3.models.components', ('union', [('model', 'ChannelBindingsObject'), ('model', 'Reference')])),
    'CorrelationIDs': ('asyncapi3.models.components', ('union', [('model', 'CorrelationID'), ('model', 'Reference')])),
    'ExternalDocs': ('asyncapi3.models.components', ('union', [('model', 'ExternalDocumentation'), ('model', 'Reference')])),
    'MessageBindings': ('asyncapi3.models.components', ('union', [('model', 'MessageBindingsObject'), ('model', 'Reference')])),
    'MessageTraits': ('asyncapi3.models.components', ('union', [('model', 'MessageTrait'), ('model', 'Reference')])),
    'OperationBindings': ('asyncapi3.models.components', ('union', [('model', 'OperationBindingsObject'), ('model', 'Reference')])),
    'OperationTraits': ('asyncapi3.models.components', ('union', [('model', 'OperationTrait'), ('model', 'Reference')])),
    'Replies': ('asyncapi3.models.components', ('union', [('model', 'OperationReply'), ('model', 'Reference')])),
    'ReplyAddresses': ('asyncapi3.models.components', ('union', [('model', 'OperationReplyAddress'), ('model', 'Reference')])),
    'Schemas': ('asyncapi3.models.components', ('union', [('model', 'MultiFormatSchema'), ('model', 'Schema'), ('model', 'Reference')])),
    'SecuritySchemes': ('asyncapi3.models.components', ('union', [('model', 'SecurityScheme'), ('model', 'Reference')])),
    'ServerBindings': ('asyncapi3.models.components', ('union', [('model', 'ServerBindingsObject'), ('model', 'Reference')])),
    'ServerVariables': ('asyncapi3.models.components', ('union', [('model', 'ServerVariable'), ('model', 'Reference')])),
    'Tags': ('asyncapi3.models.components', ('union', [('model', 'Tag'), ('model', 'Reference')])),
    'Messages': ('asyncapi3.models.message', ('union', [('model', 'Message'), ('model', 'Reference')])),
    'Operations': ('asyncapi3.models.operation', ('union', [('model', 'Operation'), ('model', 'Reference')])),
    'Servers': ('asyncapi3.models.server', ('union', [('model', 'Server'), ('model', 'Reference')])),
}
